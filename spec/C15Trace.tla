------------------------------ MODULE C15Trace ------------------------------
EXTENDS TraceBase, Strategy
\* setup: A (accounts: cls, ...), gmax (groups sharing room), Gmax (their room at first);
\* "state" gives balances, rates, limits and room as
\* measured: at first, and again whenever a year has passed.
R(s, bad) == [st |-> s, bad |-> bad]
Init0(s) == [s |-> s, A |-> <<>>, P |-> [total |-> "0"]]
Prob(s, P, T) == [T |-> T, lo |-> P.lo, hi |-> P.hi, gmin |-> [x \in DOMAIN s.A |-> 0],
                  gmax |-> IF P.out THEN [x \in DOMAIN s.A |-> 0] ELSE s.gmax,
                  Gmin |-> <<>>, Gmax |-> P.room, total |-> P.total, out |-> P.out]
Flow(e) == [x \in DOMAIN e.got |-> RAbs(e.got[x])]
Close(f, g) == \A x \in DOMAIN f : Le(f[x], g[x]) /\ Le(g[x], f[x])
Signs(P, e) == \A x \in DOMAIN e.got : IF P.out THEN RLe(e.got[x], "1/100000") ELSE RLe("-1/100000", e.got[x])
Only(A, X) == [i \in DOMAIN A |-> i \in X]
Step(M, e) ==
  CASE e.ev = "state" ->
         R([M EXCEPT !.A = [x \in DOMAIN M.s.A |-> [cls |-> M.s.A[x].cls, bal |-> e.bal[x], rate |-> e.rate[x]]],
                     !.P = [lo |-> e.lo, hi |-> e.hi, room |-> e.room, total |-> e.total, out |-> e.out]], {})
    [] e.ev = "strategy" ->
         IF e.err # "ok" THEN R(M, {"error"})
         ELSE LET S == e.S  Q == Prob(M.s, M.P, StrategyTree(S, M.A))  f == Flow(e)
                  m == AllocMin(Q)
              IN R(M, Clause("as-named", Close(f, AllocMax(Q, m)))
                      \cup Clause("direction", Signs(M.P, e))
                      \cup Clause("nothing-unlisted", NothingUnlisted(S, M.A, f) /\ e.extra = 0)
                      \cup Clause("high-interest-first", ~Q.out => HighFirst(S, M.A, Q, m, f))
                      \cup Clause("unchanged", e.same))
    [] e.ev = "pay" ->
         IF e.err # "ok" THEN R(M, {"error"})
         ELSE LET X == {e.debts[i] : i \in DOMAIN e.debts}
                  P == [M.P EXCEPT !.total = e.total]
                  Q == Prob(M.s, P, DebtTree(e.debt, M.A, X))  f == Flow(e)
                  m == AllocMin(Q)
              IN R(M, Clause("debts-as-named", Close(f, AllocMax(Q, m)))
                      \cup Clause("minimum-payments", RLe(SumOf(Q.lo, X), Q.total) => \A x \in X : Le(Q.lo[x], f[x]))
                      \cup Clause("debts-in-order", DebtsInOrder(e.debt, M.A, X, Q, m, f))
                      \cup Clause("other-debts", \A x \in DOMAIN f \ X : RZero(f[x]))
                      \cup Clause("unchanged", e.same))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
