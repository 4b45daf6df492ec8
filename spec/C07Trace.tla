------------------------------ MODULE C07Trace ------------------------------
EXTENDS TraceBase, Rrsp
\* setup: first, open, rates, nper, shared.
Init0(s) == [Q |-> [A |-> AInit(s.first, s.open, s.rates, s.nper, <<>>), born |-> 0, bornc |-> 0, conv |-> "auto", shared |-> s.shared],
             K |-> <<>>, price |-> <<>>, dw |-> ("1" :> "1")]
R(s, bad) == [st |-> s, bad |-> bad]
Fac(s, t, b) == RDiv(s.price[RInt(t)], s.price[RInt(b)])
Among(S, x) == \E y \in S : RClose(x, y)
SameS(f, g, m) == DOMAIN f = DOMAIN g /\ \A t \in DOMAIN f : RCloseS(f[t], g[t], m)
Seen(s, o) ==
  LET Q == s.Q  K == s.K  F(t, b) == Fac(s, t, b)  w == Weights(IF o.w = <<>> THEN s.dw ELSE o.w)
      m == Mag(Q.A, NoTx)
  IN Clause("conversion-year", o.conv = RInt(ConvYear(Q, K)))
     \cup Clause("minimum", RCloseS(o.least, Least(Q, K), m))
     \cup Clause("minimum-limit", RCloseS(o.limit, RNeg(Asked(Q, K)), m))
     \cup Clause("minimum-proposed", SameS(o.must, Spread(MustWithdraw(Q, K, w), w), m))
     \cup Clause("taxable", RCloseS(o.taxable, Taxable(Q), m))
     \cup Clause("deduction", RCloseS(o.deduction, Deductible(Q), m))
     \cup Clause("withheld", \E y \in Withheld(Q, K, F) : RCloseS(o.withheld, y, m))
     \cup Clause("withheld-not-negative", RLe("0", o.withheld))
     \cup (IF Closed(Q, K, Q.A.year)
            THEN Clause("no-room-past-age", RZero(o.room) /\ \A t \in DOMAIN o.offer : RZero(o.offer[t])) ELSE {})
Then(s, e, bad) == R(s, bad \cup Seen(s, e.obs))
Step(s, e) ==
  LET Q == s.Q IN
  CASE e.ev = "law" -> R([s EXCEPT !.K = e.law, !.price = e.price, !.Q.born = e.born, !.Q.bornc = e.bornc], {})
    [] e.ev = "new" -> LET ok == e.conv = "auto" \/ MayConvert(Q, s.K, RToInt(e.conv)) IN
         IF e.err = "ok"
         THEN Then([s EXCEPT !.Q.conv = e.conv], e, Clause("late-conversion-refused", ok))
         ELSE R(s, Clause("conversion-accepted", ~ok /\ e.err = "EXC:ValueError"))
    [] e.ev = "convert" ->
         LET y == IF e.y = "now" THEN Q.A.year ELSE RToInt(e.y)
             ok == MayConvert(Q, s.K, y)
         IN Then(IF ok THEN [s EXCEPT !.Q = Convert(@, y)] ELSE s, e,
                 IF ok THEN Clause("conversion-accepted", e.err = "ok") ELSE Clause("late-conversion-refused", e.err = "EXC:ValueError"))
    [] e.ev = "auto" -> Then([s EXCEPT !.Q.conv = "auto"], e, Clause("conversion-accepted", e.err = "ok"))
    [] e.ev = "add" -> Then([s EXCEPT !.Q.A = AddTx(@, e.t, e.v)], e, Clause("add-accepted", e.err = "ok"))
    [] e.ev = "comply" -> Then([s EXCEPT !.Q.A = [@ EXCEPT !.tx = Merge(@, e.tx)]], e,
         Clause("minimum-met", LET Q1 == [Q EXCEPT !.A.tx = Merge(@, e.tx)]  m == Mag(Q1.A, NoTx) IN
                 RLeS(Least(Q, s.K), Taxable(Q1), m) \/ RLeS(BalanceAt(Q1.A, "1"), "0", m)))
    [] e.ev = "next" ->
         LET F(t, b) == Fac(s, t, b)  m == Mag(Q.A, NoTx) IN
         Then([s EXCEPT !.Q.A = ANext(@)], e,
              Clause("advance", e.err = "ok")
              \cup Clause("taxable-recorded", RCloseS(e.taxable, Taxable(Q), m))
              \cup Clause("deduction-recorded", RCloseS(e.deduction, Deductible(Q), m))
              \cup Clause("withheld-recorded", \E y \in Withheld(Q, s.K, F) : RCloseS(e.withheld, y, m)))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
