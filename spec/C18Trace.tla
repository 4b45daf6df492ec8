------------------------------ MODULE C18Trace ------------------------------
EXTENDS TraceBase, Carry
\* setup: first (year), years (how many), objs (how many), accts (how many
\* accounts and debts), assets (those that are not debts), refund and payment
\* (schedules), real (the parts move money between real accounts), mag.
R(s, bad) == [st |-> s, bad |-> bad]
SetOf(s) == {s[i] : i \in DOMAIN s}
Blank == [cash0 |-> "0", open |-> <<>>, delta |-> <<>>, into |-> <<>>, flows |-> <<>>, adj |-> <<>>, given |-> "0"]
Init0(s) == [F |-> [year |-> s.first, phase |-> 0, cash |-> MNone, objs |-> [k \in 1..s.objs |-> s.first], adj |-> <<>>,
                    refund |-> s.refund, payment |-> s.payment],
             Y |-> Blank, past |-> <<>>, s |-> s, mag |-> s.mag]
\* The year now begins, if every object has been advanced.
Begun(M) == IF M.F.phase = 5 THEN [M EXCEPT !.F = Start(M.F), !.past = Append(@, [M.Y EXCEPT !.adj = M.F.adj]),
                                            !.Y = [Blank EXCEPT !.cash0 = Total(StartCash(Total(M.F.cash), M.F.adj, M.F.refund, M.F.payment))]]
            ELSE M
OnCall(M, e) ==
  LET ready == M.F.phase # 5 \/ MayStart(M.F)
      N == IF ready THEN Begun(M) ELSE M
      cash == e.after
      F2 == [DoPart(N.F, e.p, MNone) EXCEPT !.cash = cash]
      Y2 == [N.Y EXCEPT !.delta = Append(@, RSub(Total(e.after), Total(e.before))),
                        !.open = IF e.p = 1 THEN e.bal ELSE @,
                        \* flows of the accounts' own that no part has made
                        !.given = IF e.p = 1 THEN RSumSeq(e.flow0) ELSE @,
                        \* what the part moved into each account
                        !.into = Append(@, [k \in DOMAIN e.flow1 |-> RSub(e.flow1[k], e.flow0[k])]),
                        !.flows = e.flow1]
      bad == Clause("in-step", ready /\ \A k \in DOMAIN e.years : e.years[k] = N.F.year)
             \cup Clause("order", N.F.phase = e.p - 1)
             \cup (IF e.p = 1 THEN Clause("start-cash", SameFlows(e.before, N.F.cash, N.mag))
                   ELSE Clause("cash-kept", SameFlows(e.before, N.F.cash, N.mag)))
             \cup Clause("part-flows", SameFlows(e.after, Merge(e.before, e.moved), N.mag))
  IN IF e.err # "ok" THEN R([N EXCEPT !.F = F2, !.Y = Y2], {"error"}) ELSE R([N EXCEPT !.F = F2, !.Y = Y2], bad)
OnNext(M, e) ==
  LET ok == MayAdvance(M.F, e.k)
      N == [M EXCEPT !.F = [Advance(@, e.k) EXCEPT !.adj = IF e.k = 5 THEN e.adj ELSE @]]
  IN R(N, Clause("advance", ok /\ e.to = M.F.objs[e.k] + 1))
Near(a, b, m) == RCloseS(a, b, m) \/ RLe(RAbs(RSub(a, b)), RAdd("3/100000", RMul("1/10000000000", m)))
\* Everything has run: years is how many years there have been so far.
OnEnd(M, e) ==
  LET n == Len(M.past) + 1
      all == Append(M.past, M.Y)
      A == SetOf(M.s.assets)
      m == M.mag
      Income(i) == all[i].delta[1]
      Living(i) == RNeg(all[i].delta[2])
      Taken(i) == RNeg(RSum([k \in A |-> all[i].into[4][k]]))
      Wealth(i) == RSum([k \in DOMAIN all[i].open |-> all[i].open[k]])
  IN IF e.err # "ok" THEN R(M, {"error"})
     ELSE R(M,
        Clause("span", n = e.years /\ M.F.phase = 5 /\ InStep(M.F) /\ M.F.year = M.s.first + e.years - 1 /\ e.year = M.F.year)
        \cup (IF Len(e.figs) # n \/ \E i \in 1..n : Len(all[i].delta) # 5 THEN {"years"} ELSE
              Clause("income", \A i \in 1..n : RCloseS(e.figs[i].income, Income(i), m))
              \cup Clause("expenses", \A i \in 1..n : RCloseS(e.figs[i].living_expenses, Living(i), m))
              \cup Clause("unspent", \A i \in 1..n : RCloseS(e.figs[i].savings, RMax("0", RSub(Income(i), Living(i))), m))
              \cup Clause("principal", \A i \in 1..n : RCloseS(e.figs[i].principal, RSum([k \in A |-> all[i].open[k]]), m))
              \cup (IF ~M.s.real THEN {} ELSE
                    \* the parts' own records are of the year they were called in
                    Clause("parts", \A i \in 1..n : RCloseS(e.figs[i].net_income, Income(i), m) /\ RCloseS(e.figs[i].carryover, all[i].cash0, m)
                                       /\ RCloseS(e.figs[i].gross_income, RAdd(e.figs[i].folk_net, e.figs[i].folk_held), m)
                                       /\ RCloseS(e.figs[i].net_income, e.figs[i].folk_net, m))
                    \cup Clause("withdrawals", \A i \in 1..n : Near(e.figs[i].withdrawals, Taken(i), m))
                    \* what withdrawals do not bring in was withheld
                    \cup Clause("net-withdrawals", \A i \in 1..n : Near(e.figs[i].net_withdrawals, all[i].delta[4], m))
                    \cup Clause("contributions", \A i \in 1..n : RCloseS(e.figs[i].total, RNeg(all[i].delta[3]), m))
                    \cup Clause("accounts", \A i \in 1..n - 1 : \A k \in DOMAIN all[i].open :
                           RCloseS(all[i + 1].open[k], RAdd(all[i].open[k], RAdd(e.figs[i].returns[k], all[i].flows[k])), m))
                    \cup Clause("reconciles", \A i \in 1..n - 1 :
                           Reconciles([open |-> Wealth(i), close |-> Wealth(i + 1), cash0 |-> all[i].cash0, cash1 |-> all[i + 1].cash0,
                                       returns |-> RSumSeq(e.figs[i].returns),
                                       outside |-> RAdd(RSub(Income(i), Living(i)), RAdd(all[i].given, RSub(all[i].delta[4], Taken(i)))),
                                       adj |-> RSub(e.figs[i].tax_withheld, e.figs[i].tax)], m)))
              \cup Clause("tax", \A i \in 1..n - 1 : all[i].adj # <<>> => RCloseS(RSub(e.figs[i].tax_withheld, e.figs[i].tax), all[i].adj[1], m)))
        \cup Clause("members", e.members))
Step(M, e) ==
  CASE e.ev = "call" -> OnCall(M, e)
    [] e.ev = "next" -> OnNext(M, e)
    [] e.ev = "end"  -> OnEnd(M, e)
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
