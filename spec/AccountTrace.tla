----------------------------- MODULE AccountTrace -----------------------------
(* Traces of real accounts and debts against module Account (C02-C04).      *)
EXTENDS TraceBase, Account, FiniteSets

\* setup: first, open, rates, nper, given, kind ("account" or "debt"),
\* dw (default timing weights), lims (account) or minpay/accel (debt)
Init0(s) == [A |-> AInit(s.first, IF s.kind = "debt" THEN RNeg(RAbs(s.open)) ELSE s.open,
                         s.rates, s.nper, s.given),
             kind |-> s.kind, dw |-> s.dw,
             lims |-> s.lims]

LimOf(st0, k) ==
  IF st0.kind = "debt"
  THEN CASE k = "min_in" -> st0.lims.minpay
         [] k = "max_in" -> RAdd(st0.lims.minpay, st0.lims.accel)
         [] OTHER -> "0"
  ELSE st0.lims[k]
TargetOf(st0, k, bl) ==
  IF bl /= "none" THEN bl
  ELSE IF k \in {"max_in", "min_in"} /\ st0.kind /= "debt" THEN "inf" ELSE "0"
WOf(st0, w) == Weights(IF w = <<>> THEN st0.dw ELSE w)

\* Same schedule, up to float noise (infinities exactly).
SameS(f, g, m) == DOMAIN f = DOMAIN g /\ \A t \in DOMAIN f : RCloseS(f[t], g[t], m)
SameSched(f, g) == DOMAIN f = DOMAIN g /\ \A t \in DOMAIN f : RClose(f[t], g[t])
\* Timings given as equal numbers are equal strings, so domains compare exactly.

PropBad(s, e) ==
  LET A == s.A  k == e.kind
      w == WOf(s, e.w)  lim == LimOf(s, k)  tg == TargetOf(s, k, e.bl)
      want == Spread(ProposedTotal(A, k, w, lim, e.tl, tg, e.extra), w)
  IN IF e.err /= "ok" THEN {"proposal-error"}
     ELSE Clause("proposal-value", SameS(e.out, want, Mag(A, e.extra)))
          \cup Clause("proposal-safe", ProposalSafe(A, k, w, lim, e.tl, tg, e.extra, e.out))
          \cup Clause("proposal-full", ProposalFull(A, k, w, lim, e.tl, tg, e.extra, e.out))
          \cup (IF s.kind /= "debt" THEN {} ELSE
                Clause("debt-not-overpaid", k \in {"max_in", "min_in"} /\ e.bl = "none" =>
                   RLeS(BalanceWith(A, Merge(e.extra, e.out), "1"), RMax("0", BalanceWith(A, e.extra, "1")), Mag(A, e.extra)))
                \cup Clause("debt-no-outflow", k \in {"max_out", "min_out"} => \A t \in DOMAIN e.out : RZero(e.out[t]))
                \cup Clause("debt-minimum-met", k \in {"max_in", "min_in"} /\ e.tl = "none" /\ e.bl = "none" =>
                   \/ RLeC(s.lims.minpay, RAdd(RSum(e.out), RAdd(Inflow(A.tx), Inflow(e.extra))))
                   \/ RLeS("0", BalanceWith(A, Merge(e.extra, e.out), "1"), Mag(A, e.extra))))

ToBalBad(s, e) ==
  LET A == s.A  w == WOf(s, e.w)
      t1 == TotalTo(A, w, e.target, e.extra)
      t2 == IF e.maxt = "none" THEN t1 ELSE RMin(t1, e.maxt)
      t3 == IF e.mint = "none" THEN t2 ELSE RMax(t2, e.mint)
  IN IF e.err /= "ok" THEN {"to-balance-error"}
     ELSE Clause("to-balance-value", SameS(e.out, Spread(t3, w), Mag(A, e.extra)))
          \cup Clause("to-balance-reaches", e.maxt = "none" /\ e.mint = "none" =>
                  RCloseS(BalanceWith(A, Merge(e.extra, e.out), "1"), e.target, Mag(A, e.extra)))

To(s, A) == [s EXCEPT !.A = A]
R(s, bad) == [st |-> s, bad |-> bad]
Step(s, e) ==
  LET A == s.A IN
  CASE e.ev = "add" -> R(To(s, AddTx(A, e.t, e.v)), Clause("add-accepted", e.err = "ok"))
    [] e.ev = "addbad" -> R(s, Clause("time-outside-year-refused", e.err = "EXC:ValueError"))
    [] e.ev = "put" -> R(To(s, PutTx(A, e.t, e.v)), Clause("put-accepted", e.err = "ok"))
    [] e.ev = "del" -> R(To(s, DropTx(A, e.t)), Clause("del-accepted", e.err = "ok"))
    [] e.ev = "clear" -> R(To(s, ClearTx(A)), Clause("clear-accepted", e.err = "ok"))
    [] e.ev = "txs" -> R(s, Clause("transactions-kept", SameSched(e.out, A.tx))
          \cup Clause("same-view", SameSched(e.view, A.tx) /\ e.len = Cardinality(DOMAIN e.out)
                 /\ {e.has[i] : i \in DOMAIN e.has} = DOMAIN e.out))
    [] e.ev = "sums" -> R(s,
          Clause("inflows", RClose(e.inn, RAdd(Inflow(A.tx), Inflow(e.extra))))
          \cup Clause("outflows", RClose(e.out, RAdd(Outflow(A.tx), Outflow(e.extra)))))
    [] e.ev = "setopen" -> R(To(s, SetOpen(A, e.v)), Clause("assign", e.err = "ok"))
    [] e.ev = "setrate" -> R(To(s, SetRate(A, e.v)), Clause("assign", e.err = "ok"))
    [] e.ev = "setfn" -> R(To(s, SetLater(A, e.v)), Clause("assign", e.err = "ok"))
    [] e.ev = "setnper" -> R(To(s, SetNper(A, e.n)), Clause("assign", e.err = "ok"))
    [] e.ev = "setdt" -> R([s EXCEPT !.dw = e.w], Clause("assign", e.err = "ok"))
    [] e.ev = "setlims" -> R([s EXCEPT !.lims = e.lims], {})
    [] e.ev = "read" -> R(s,
          Clause("opening-balance", RCloseS(e.balance, Open(A), Mag(A, NoTx)))
          \cup Clause("rate-of-year", RClose(e.rate, Rate(A)))
          \cup (IF s.kind = "debt" /\ A.year = A.first /\ A.tx = NoTx
                THEN Clause("debt-not-positive-at-start", RLe(e.balance, "0")) ELSE {}))
    [] e.ev = "at" -> R(s, Clause("balance-at-time", RCloseS(e.out, BalanceWith(A, e.extra, e.t), Mag(A, e.extra))))
    [] e.ev = "returns" -> R(s, Clause("returns-value", RCloseS(e.out, Returns(A), Mag(A, NoTx)))
          \cup Clause("returns-reconcile",
                 RCloseS(RAdd(RAdd(Open(A), RSum(A.tx)), e.out), BalanceAt(A, "1"), Mag(A, NoTx))))
    [] e.ev = "next" ->
         LET B == ANext(A) IN
         R(To(s, B), Clause("next-accepted", e.err = "ok")
                     \cup Clause("next-year", e.year = B.year)
                     \cup Clause("opens-at-last-close", RCloseS(e.balance, Open(B), B.mag))
                     \cup Clause("opens-without-transactions", SameSched(e.out, B.tx)))
    [] e.ev = "hist" -> R(s,
          Clause("balance-record", DOMAIN A.open \subseteq DOMAIN e.balance
                    /\ \A y \in DOMAIN A.open : RCloseS(e.balance[y], A.open[y], A.mag))
          \cup Clause("transactions-record", \A y \in DOMAIN A.past :
                    AHas(e.tx, y) /\ SameSched(e.tx[y], A.past[y]))
          \cup Clause("returns-record", \A y \in DOMAIN A.ret :
                    AHas(e.ret, y) /\ RCloseS(e.ret[y], A.ret[y], A.mag)))
    [] e.ev = "reach" -> R(s, IF e.err /= "ok" THEN {"time-to-balance-error"}
          ELSE Clause("time-to-balance", CorrectTime(A, e.v, e.t, e.out)))
    [] e.ev = "prop" -> R(s, PropBad(s, e) \cup Clause("proposal-changes-nothing", e.same))
    [] e.ev = "tobal" -> R(s, ToBalBad(s, e) \cup Clause("proposal-changes-nothing", e.same))
    [] e.ev = "oneoff" -> R(s,
          Clause("max-outflow-at", e.maxout = "skip" \/ RCloseS(e.maxout, MaxOutflowAt(A, e.t, LimOf(s, "max_out")), Mag(A, NoTx)))
          \cup Clause("max-inflow-at", e.maxin = "skip" \/ RCloseS(e.maxin,
                 IF s.kind = "debt" THEN DebtMaxInflowAt(A, e.t, LimOf(s, "max_in")) ELSE LimOf(s, "max_in"), Mag(A, NoTx)))
          \cup Clause("min-inflow-at", e.minin = "skip" \/ RClose(e.minin, LimOf(s, "min_in")))
          \cup Clause("min-outflow-at", e.minout = "skip" \/ RClose(e.minout, LimOf(s, "min_out"))))
    [] e.ev = "limits" -> R(s, UNION { Clause("limit-" \o k, RClose(e.lims[k], LimOf(s, k))) : k \in DOMAIN e.lims })
    [] e.ev = "accum" -> R(s,
          Clause("accumulation", RClose(e.out, Accum(e.t, e.r, e.n)))
          \cup Clause("accumulation-inverse", e.inv = "skip" \/ RCloseTol(e.inv, e.t, "1/1000000"))
          \cup Clause("value-at-time", RClose(e.val, RMul(e.v, Accum(RSub(e.to, e.from), e.r, e.n)))))

TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
