------------------------------ MODULE C21Trace ------------------------------
EXTENDS TraceBase, Scenario
\* setup: init, n, series (name -> series)
Init0(s) == s
R(s, bad) == [st |-> s, bad |-> bad]
\* The year an op names may be outside a list or table; such ops are not traced.
Step(s, e) ==
  LET Infl(y) == Rate(s.series.inflation, s.init, y) IN
  CASE e.ev = "accum" -> R(s, Clause("accumulation", RCloseTol(e.out, Factor(Infl, e.y1, e.y2), "1/1000000000"))
                              \cup Clause("error", e.err = "ok"))
    [] e.ev = "adjust" -> R(s, Clause("inflation-adjust",
          RCloseTol(e.out, Factor(Infl, IF e.hasbase THEN e.base ELSE s.init, e.target), "1/1000000000")))
    [] e.ev = "adjustments" -> R(s,
          Clause("adjustments-years", DOMAIN e.out = {RInt(Years(s.init, s.n)[i]) : i \in 1..s.n})
          \cup Clause("adjustments", \A i \in 1..s.n : LET y == Years(s.init, s.n)[i] IN
                 RInt(y) \in DOMAIN e.out => RCloseTol(e.out[RInt(y)], Factor(Infl, e.base, y), "1/1000000000")))
    [] e.ev = "years" -> R(s, Clause("covers-years", e.out = Years(s.init, s.n)) \cup Clause("length", e.len = s.n))
    [] e.ev = "rate" -> R(s, Clause("rate", RCloseTol(e.out, Rate(s.series[e.name], s.init, e.y), "1/1000000000000")))
    [] e.ev = "discount" -> R(s, Clause("discount-rate", RCloseTol(e.out, Infl(e.y), "1/1000000000000")))
    [] e.ev = "compose" -> R(s, Clause("composes", RCloseTol(RMul(e.ab, e.bc), e.ac, "1/1000000000"))
                              \cup Clause("inverts", RCloseTol(RMul(e.ab, e.ba), "1", "1/1000000000")))
    [] e.ev = "error" -> R(s, Clause("rejects-no-years", e.out = "EXC:ValueError"))
    [] e.ev = "input" -> R(s, Clause("input-unchanged", e.same))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
