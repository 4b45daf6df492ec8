------------------------------ MODULE C08Trace ------------------------------
EXTENDS TraceBase, CostBase
\* setup: first, open, rates, nper, given (balance/rate), acb ("none": the
\* balance), acbs, gains, taxables (user-supplied).
Init0(s) ==
  LET A == AInit(s.first, s.open, s.rates, s.nper, s.given)
  IN [S |-> [A |-> A, acb |-> IF AHas(s.acbs, AY(s.first)) THEN s.acbs[AY(s.first)] ELSE IF s.acb = "none" THEN s.open ELSE s.acb,
             acbs |-> s.acbs, gains |-> s.gains],
      taxables |-> s.taxables, mag |-> "1"]
R(s, bad) == [st |-> s, bad |-> bad]
M(s) == RMax(s.mag, RMax(RAbs(s.S.acb), Mag(s.S.A, NoTx)))
TaxOf(s) == IF AHas(s.taxables, AY(s.S.A.year)) THEN s.taxables[AY(s.S.A.year)] ELSE TaxableGain(s.S)
Seen(s, o) ==
  Clause("cost-base", RCloseS(o.acb, s.S.acb, M(s)))
  \cup Clause("gain", RCloseS(o.gain, Gain(s.S), M(s)))
  \cup Clause("half-taxable", RCloseS(o.taxable, TaxOf(s), M(s)))
  \cup Clause("balance", RCloseS(o.balance, Open(s.S.A), M(s)))
Then(s, e, bad) == R(s, bad \cup (IF e.obs = <<>> THEN {} ELSE Seen(s, e.obs)))
Step(s, e) ==
  LET S == s.S  y == AY(S.A.year) IN
  CASE e.ev = "new" -> Then(s, e, Clause("accepted", e.err = "ok"))
    [] e.ev = "add" -> Then([s EXCEPT !.S.A = AddTx(@, e.t, e.v)], e, Clause("accepted", e.err = "ok"))
    [] e.ev = "put" -> Then([s EXCEPT !.S.A = PutTx(@, e.t, e.v)], e, Clause("accepted", e.err = "ok"))
    [] e.ev = "del" -> Then([s EXCEPT !.S.A = DropTx(@, e.t)], e, Clause("accepted", e.err = "ok"))
    [] e.ev = "setacb" -> Then([s EXCEPT !.S = SetAcb(@, e.v)], e, Clause("accepted", e.err = "ok"))
    [] e.ev = "next" ->
         Then([s EXCEPT !.S = SNext(@), !.mag = RMax(RMul(M(s), RMax("1", Accum("1", Rate(S.A), S.A.nper))), @)], e,
              Clause("accepted", e.err = "ok")
              \cup Clause("cost-base-recorded", RCloseS(e.acb, S.acb, M(s)))
              \cup Clause("gain-recorded", RCloseS(e.gain, Gain(S), M(s)))
              \cup Clause("taxable-recorded", RCloseS(e.taxable, TaxOf(s), M(s))))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
