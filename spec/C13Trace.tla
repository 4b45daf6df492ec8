------------------------------ MODULE C13Trace ------------------------------
EXTENDS AllocTrace
R(s, bad) == [st |-> s, bad |-> bad]
Init0(s) == [s |-> s, Q |-> [total |-> "0"]]
Step(S, e) ==
  CASE e.ev = "caps" -> R([S EXCEPT !.Q = Problem(S.s, e)], {})
    [] e.ev = "alloc" ->
         IF e.err # "ok" THEN R(S, {"error"})
         ELSE LET Q == S.Q  f == Flow(Q, e)  tree == IsTree(Q.T) IN
           IF RLe(Q.total, Tiny) THEN R(S, Clause("nothing", \A x \in DOMAIN f : RLe(f[x], "1/1000")))
           ELSE R(S, Clause("direction", e.pure /\ \A x \in DOMAIN e.got : IF Q.out THEN RLe(e.got[x], Tiny) ELSE RLe("-1/100000", e.got[x]))
              \cup Clause("total", WithinTotal(Q, f))
              \cup Clause("account-limit", WithinOwn(Q, f))
              \cup Clause("group-limit", WithinGroup(Q, f))
              \cup Clause("node-limit", tree => WithinNode(Q, f))
              \cup Clause("only-tree", OnlyTree(Q, f) /\ e.extra = 0)
              \cup Clause("uses-all", UsesAll(Q, f))
              \cup Clause("minimums", MinsFirst(Q, f))
              \cup Clause("times", e.times)
              \cup Clause("unchanged", e.same))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
