------------------------------ MODULE C14Trace ------------------------------
EXTENDS AllocTrace
R(s, bad) == [st |-> s, bad |-> bad]
Init0(s) == [s |-> s, Q |-> [total |-> "0"], m |-> <<>>, i |-> <<>>]
Step(S, e) ==
  CASE e.ev = "caps" -> LET Q == Problem(S.s, e) IN
         R([S EXCEPT !.Q = Q, !.m = AllocMin(Q), !.i = Ideal(Q)], {})
    [] e.ev = "alloc" ->
         IF e.err # "ok" THEN R(S, {"error"})
         ELSE LET Q == S.Q  f == Flow(Q, e) IN
           IF RLe(Q.total, Tiny) THEN R(S, {})
           ELSE R(S, Clause(IF e.perm THEN "arrangement" ELSE "ideal", \A x \in DOMAIN f : Le(f[x], S.i[x]) /\ Le(S.i[x], f[x]))
                     \cup Clause("order", OrderKept(Q, S.m, f))
                     \cup Clause("weights", WeightKept(Q, S.m, f)))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
