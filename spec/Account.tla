------------------------------- MODULE Account -------------------------------
(***************************************************************************)
(* One account over the years (C02), the flows that may be proposed for it *)
(* (C03), and debts (C04).                                                 *)
(*                                                                         *)
(* State A: year, first; nper ("C" for continuous compounding, else a      *)
(* number); rates: year -> rate, with "*" for every other year; open:      *)
(* year -> opening balance; tx: time -> value, this year's transactions;   *)
(* past: year -> transactions of a closed year; ret: year -> returns of a  *)
(* closed year; given: the user's figures, quantity -> year -> value;      *)
(* mag: the size of the amounts seen, which bounds the float noise.        *)
(* Amounts, rates and times are rationals (module Rat).                    *)
(***************************************************************************)
EXTENDS Rat
LOCAL INSTANCE FiniteSets

AHas(f, k) == k \in DOMAIN f
APut(f, k, v) == (k :> v) @@ f
AGet(f, k) == IF AHas(f, k) THEN f[k] ELSE "0"
AY(n) == ToString(n)
NoTx == <<>>
\* Pointwise sum of two schedules.
Merge(f, g) == [t \in DOMAIN f \cup DOMAIN g |-> RAdd(AGet(f, t), AGet(g, t))]
Inflow(f)  == RSumOver(f, {t \in DOMAIN f : RPos(f[t])})
Outflow(f) == RSumOver(f, {t \in DOMAIN f : RIsNeg(f[t])})

\* --- growth ---------------------------------------------------------------
\* The accumulation function of interest theory.
Accum(t, r, n) == IF n = "C" THEN RExp(RMul(r, t))
                  ELSE RPow(RAdd("1", RDiv(r, n)), RMul(n, t))
\* Value at time T of v at time t.
Grow(v, t, T, r, n) == IF RZero(v) THEN "0" ELSE RMul(v, Accum(RSub(T, t), r, n))
\* Closed form: each part grows from its own time.
BalanceOf(open, tx, r, n, T) ==
  LET S == {t \in DOMAIN tx : RLe(t, T)}
  IN RAdd(Grow(open, "0", T, r, n),
          RSumOver([t \in S |-> Grow(tx[t], t, T, r, n)], S))
\* The same, excluding transactions at T itself.
BalanceBefore(open, tx, r, n, T) ==
  LET S == {t \in DOMAIN tx : RLt(t, T)}
  IN RAdd(Grow(open, "0", T, r, n),
          RSumOver([t \in S |-> Grow(tx[t], t, T, r, n)], S))
\* Step by step: the balance accrues between transactions.
RECURSIVE Walk(_, _, _, _, _, _)
Walk(bal, now, times, tx, r, n) ==
  IF times = <<>> THEN Grow(bal, now, "1", r, n)
  ELSE Walk(RAdd(Grow(bal, now, Head(times), r, n), tx[Head(times)]),
            Head(times), Tail(times), tx, r, n)
\* The size of the amounts that a year's figures are made of.
MagOf(open, tx, r, n) ==
  RAdd(RAdd(RAbs(open), RSum([t \in DOMAIN tx |-> RAbs(tx[t])])),
       RAdd(RAbs(Grow(open, "0", "1", r, n)),
            RSum([t \in DOMAIN tx |-> RAbs(Grow(tx[t], t, "1", r, n))])))
ReturnsOf(open, tx, r, n) ==
  RSub(BalanceOf(open, tx, r, n, "1"), RAdd(open, RSum(tx)))

RateIn(A, y) ==
  IF AHas(A.given, "rate") /\ AHas(A.given.rate, y) THEN A.given.rate[y]
  ELSE IF AHas(A.rates, y) THEN A.rates[y] ELSE A.rates["*"]
Rate(A) == RateIn(A, AY(A.year))
Open(A) == A.open[AY(A.year)]
BalanceAt(A, T) == BalanceOf(Open(A), A.tx, Rate(A), A.nper, T)
BalanceWith(A, extra, T) == BalanceOf(Open(A), Merge(A.tx, extra), Rate(A), A.nper, T)
Returns(A) == ReturnsOf(Open(A), A.tx, Rate(A), A.nper)

Mag(A, extra) == RMax(A.mag, MagOf(Open(A), Merge(A.tx, extra), Rate(A), A.nper))
\* The transactions a year starts with: none, or those the user gave for it.
GivenTx(given, y) == IF AHas(given, "transactions") /\ AHas(given.transactions, y) THEN given.transactions[y] ELSE NoTx
AInit(first, open, rates, nper, given) ==
  [year |-> first, first |-> first, nper |-> nper, rates |-> rates,
   open |-> (AY(first) :> open), tx |-> GivenTx(given, AY(first)), past |-> <<>>, ret |-> <<>>, mag |-> "1",
   given |-> given]
AddTx(A, t, v) == [A EXCEPT !.tx = Merge(@, t :> v)]
PutTx(A, t, v) == [A EXCEPT !.tx = APut(@, t, v)]
DropTx(A, t)   == [A EXCEPT !.tx = [x \in DOMAIN @ \ {t} |-> @[x]]]
ClearTx(A)     == [A EXCEPT !.tx = NoTx]
GivenIn(A, p, y) == AHas(A.given, p) /\ AHas(A.given[p], y)
SetOpen(A, v)  == IF GivenIn(A, "balance", AY(A.year)) THEN A
                  ELSE [A EXCEPT !.open = APut(@, AY(A.year), v)]
SetRate(A, v)  == IF GivenIn(A, "rate", AY(A.year)) THEN A
                  ELSE [A EXCEPT !.rates = APut(@, AY(A.year), v)]
\* Another rate for the years to come, another frequency from now on.
SetLater(A, v) == [A EXCEPT !.rates = (AY(A.year) :> Rate(A)) @@ ("*" :> v)]
SetNper(A, n) == [A EXCEPT !.nper = n]
ANext(A) ==
  LET y == AY(A.year)  z == AY(A.year + 1)
  IN [A EXCEPT !.year = A.year + 1,
               !.open = APut(@, z, IF GivenIn(A, "balance", z) THEN A.given.balance[z]
                                   ELSE BalanceAt(A, "1")),
               !.past = APut(@, y, A.tx), !.ret = APut(@, y, Returns(A)),
               !.tx = GivenTx(A.given, z),
               !.mag = RMul(Mag(A, NoTx), RMax("1", Accum("1", Rate(A), A.nper)))]

\* --- reaching a balance -----------------------------------------------------
\* The times, from `when` on, at which the course of the balance is broken.
Breaks(A, when) == RSortSet({when} \cup {t \in DOMAIN A.tx : RLt(when, t)})
StrictlyBetween(x, a, b) == (RLtC(a, x) /\ RLtC(x, b)) \/ (RLtC(b, x) /\ RLtC(x, a))
\* Does growth alone ever take balance v to x?
Attains(v, x, r) ==
  \/ RClose(v, x)
  \/ RPos(RMul(v, x)) /\ ((RPos(r) /\ RLt(RAbs(v), RAbs(x))) \/ (RIsNeg(r) /\ RLt(RAbs(x), RAbs(v))))
\* t is a correct answer to "when, from `when` on, is the balance x?"
CorrectTime(A, x, when, t) ==
  LET B == Breaks(A, when)  n == Len(B)  r == Rate(A)
      At(s) == BalanceAt(A, s)
      Before(s) == BalanceBefore(Open(A), A.tx, r, A.nper, s)
      \* x is passed strictly inside the i-th stretch, which ends before s
      Passed(s) == \E i \in 1..n : LET b == IF i < n THEN B[i + 1] ELSE s IN
                      /\ RLt(B[i], s)
                      /\ LET e == RMin(b, s) IN
                           /\ ~RCloseTol(e, B[i], "1/1000000")
                           /\ StrictlyBetween(x, At(B[i]), Before(e))
  IN IF RIsFin(t)
     THEN /\ RLeC(when, t)
          /\ (RClose(At(t), x) \/ RClose(Before(t), x)
              \/ (\E i \in 1..n : RClose(t, B[i]) /\ (RClose(At(B[i]), x) \/ RClose(Before(B[i]), x))))
          /\ ~(\E i \in 1..n : RLtC(B[i], t) /\ RCloseTol(At(B[i]), x, "1/1000000000000") /\ ~RClose(At(B[i]), At(t)))
          /\ ~(\E i \in 1..n - 1 : RLtC(B[i + 1], t) /\ StrictlyBetween(x, At(B[i]), Before(B[i + 1])))
     ELSE /\ t = "inf"
          /\ ~(\E i \in 1..n - 1 : StrictlyBetween(x, At(B[i]), Before(B[i + 1])))
          /\ ~(\E i \in 1..n : At(B[i]) = x)
          /\ ~(Attains(At(B[n]), x, r) /\ ~RClose(At(B[n]), x) /\ ~RZero(r) /\ ~RClose(r, "0"))

\* --- proposed flows ---------------------------------------------------------
\* A schedule's weights: zeros dropped, all zeros meaning evenly; sum to 1.
Weights(w) ==
  IF \A t \in DOMAIN w : RZero(w[t])
  THEN [t \in DOMAIN w |-> RDiv("1", RInt(Cardinality(DOMAIN w)))]
  ELSE LET S == {t \in DOMAIN w : ~RZero(w[t])}  s == RSumOver(w, S)
       IN [t \in S |-> RDiv(w[t], s)]
\* What a unit spread over w is worth at the year's end.
WeightedAccum(A, w) ==
  RSum([t \in DOMAIN w |-> RMul(w[t], Accum(RSub("1", t), Rate(A), A.nper))])
\* The total, spread over w, that closes the year at target.
TotalTo(A, w, target, extra) ==
  RDiv(RSub(target, BalanceWith(A, extra, "1")), WeightedAccum(A, w))
Clamp(x, lo, hi) == RMax(RMin(x, hi), lo)
Spread(total, w) == [t \in DOMAIN w |-> RMul(total, w[t])]

\* The total proposed for kind \in {max_in, min_in, max_out, min_out}, limits
\* lim (the account's own for that kind), tl (the caller's; "none"), and
\* closing balance target.
RoomIn(A, lim, tl, extra) ==
  LET own == RSub(lim, RAdd(Inflow(A.tx), Inflow(extra)))
  IN RMax("0", IF tl = "none" THEN own ELSE RMin(own, tl))
RoomOut(A, lim, tl, extra) ==
  LET own == RSub(lim, RAdd(Outflow(A.tx), Outflow(extra)))
  IN RMin("0", IF tl = "none" THEN own ELSE RMax(own, tl))
ProposedTotal(A, kind, w, lim, tl, target, extra) ==
  LET free == TotalTo(A, w, target, extra)
  IN IF kind \in {"max_in", "min_in"}
     THEN Clamp(free, "0", RoomIn(A, lim, tl, extra))
     ELSE Clamp(free, RoomOut(A, lim, tl, extra), "0")

\* --- the guarantees of C03 for a proposal p (schedule), stated on their own --
ProposalSafe(A, kind, w, lim, tl, target, extra, p) ==
  LET tot == RSum(p)
      after == BalanceWith(A, Merge(extra, p), "1")
      before == BalanceWith(A, extra, "1")
      m == Mag(A, extra)
  IN /\ DOMAIN p = DOMAIN w
     /\ IF kind \in {"max_in", "min_in"}
        THEN /\ \A t \in DOMAIN p : RLe("0", p[t])
             /\ RLeC(RAdd(tot, RAdd(Inflow(A.tx), Inflow(extra))),
                     RMax(lim, RAdd(Inflow(A.tx), Inflow(extra))))
             /\ tl = "none" \/ RLeC(tot, RMax("0", tl))
             /\ RIsFin(tot) => RLeS(after, RMax(target, before), m)
        ELSE /\ \A t \in DOMAIN p : RLe(p[t], "0")
             /\ RLeC(RMin(lim, RAdd(Outflow(A.tx), Outflow(extra))),
                     RAdd(tot, RAdd(Outflow(A.tx), Outflow(extra))))
             /\ tl = "none" \/ RLeC(RMin("0", tl), tot)
             /\ RIsFin(tot) => RLeS(RMin(target, before), after, m)
\* ... and nothing is held back without a reason.
ProposalFull(A, kind, w, lim, tl, target, extra, p) ==
  LET tot == RSum(p)
      after == BalanceWith(A, Merge(extra, p), "1")
      inn == RAdd(Inflow(A.tx), Inflow(extra))
      out == RAdd(Outflow(A.tx), Outflow(extra))
      m == Mag(A, extra)
  IN IF kind \in {"max_in", "min_in"}
     THEN \/ RLeC(lim, RAdd(tot, inn))                  \* at the account's limit
          \/ tl /= "none" /\ RLeC(tl, tot)              \* at the caller's
          \/ RIsFin(target) /\ RIsFin(tot) /\ RLeS(target, after, m) \* at the target
          \/ tot = "inf"
     ELSE \/ RLeC(RAdd(tot, out), lim)
          \/ tl /= "none" /\ RLeC(tot, tl)
          \/ RIsFin(target) /\ RIsFin(tot) /\ RLeS(after, target, m)
          \/ tot = "-inf"

\* --- one-off limits ---------------------------------------------------------
MaxOutflowAt(A, T, lim) == RMax(RMin(RNeg(BalanceAt(A, T)), "0"), lim)
DebtMaxInflowAt(A, T, lim) == RMin(RMax(RNeg(BalanceAt(A, T)), "0"), lim)
=============================================================================
