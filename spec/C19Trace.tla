------------------------------ MODULE C19Trace ------------------------------
EXTENDS TraceBase, Expenses
\* setup: first (year), price (year string -> price)
Init0(s) == [first |-> s.first, price |-> s.price, h |-> <<>>]
R(s, bad) == [st |-> s, bad |-> bad]
\* What is on record for the people in a group.
Totals(h, who) ==
  LET Of(q) == RSum([i \in who |-> q[i]]) IN
  [k \in DOMAIN h |->
     [gross |-> Of(h[k].gross), net |-> Of(h[k].net),
      principal |-> LET N == {n \in DOMAIN h[k].principal : \E i \in DOMAIN h[k].by[n] : h[k].by[n][i] \in who}
                    IN IF N = {} THEN "0" ELSE RSum([n \in N |-> h[k].principal[n]])]]
Step(s, e) ==
  LET F(t, b) == RDiv(s.price[RInt(t)], s.price[RInt(b)])
      H == IF e.ev = "year" THEN <<>> ELSE Totals(s.h, {e.who[i] : i \in DOMAIN e.who}) IN
  CASE e.ev = "year" ->
         LET k == RInt(e.y)  now == [gross |-> e.gross, net |-> e.net, principal |-> e.principal, by |-> e.by]
         IN R([s EXCEPT !.h = (k :> now) @@ @], {})
    [] e.ev = "spend" -> R(s, IF e.err # "ok" THEN {"expenses-error"} ELSE
          Clause("rule", RCloseS(e.out, Spend(e.rule, H, F, s.first, e.y, e.ret), e.mag))
          \cup Clause("non-negative", RLe("0", e.out)))
    [] e.ev = "plan" -> R(s, IF e.err # "ok" THEN {"expenses-error"} ELSE
          Clause("schedule", RCloseS(e.out, Planned(e.plan, H, F, s.first, e.y, e.ret), e.mag))
          \cup Clause("non-negative", RLe("0", e.out))
          \cup Clause("minimum", e.plan.minimum = <<>> \/
                      RLeS(Least(e.plan.minimum[1], H, F, s.first, e.y, e.ret), e.out, e.mag)))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
