------------------------------ MODULE C20Trace ------------------------------
EXTENDS TraceBase, Allocation
Init0(s) == s
R(s, bad) == [st |-> s, bad |-> bad]
Same(a, b) == RClose(a.stocks, b.stocks) /\ RClose(a.bonds, b.bonds) /\ RClose(a.other, b.other)
Step(s, e) ==
  CASE e.ev = "alloc" -> R(s, IF e.err # "ok" THEN {"allocation-error"} ELSE
          Clause("sums-to-one", RClose(Total(e.out), "1"))
          \cup Clause("equity-within-bounds", RLeC(s.min, e.out.stocks) /\ RLeC(e.out.stocks, s.max))
          \cup Clause("named-rule", Same(e.out, Allocate(s, e.age, e.ret))))
    [] e.ev = "rate" -> R(s, IF e.err # "ok" THEN {"rate-error"} ELSE
          Clause("weighted-return", RClose(e.out, Return(Allocate(s, e.age, e.ret), e.returns))))
    [] e.ev = "set" -> R([s EXCEPT ![e.p] = e.v], Clause("setting", e.err = "ok"))
    [] e.ev = "bad" -> R(s, Clause("rejects-bounds", e.out = "EXC:ValueError"))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
