------------------------------ MODULE C17Trace ------------------------------
EXTENDS TraceBase, Parts
\* setup: stores (as in Moves; 1 is the cash), retire, debts, assets (lists of
\* store numbers), mag.  Parts are numbered as in module Parts.
R(s, bad) == [st |-> s, bad |-> bad]
SetOf(s) == {s[i] : i \in DOMAIN s}
Nothing(n) == [people |-> <<>>, living |-> "0", plan |-> <<>>, held |-> [k \in 1..n |-> "0"], accheld |-> <<>>, owing |-> "0"]
\* What is on record for a part that has done nothing: parts that follow a plan
\* report nothing; the figures of the others do not depend on being called.
Idle(n) == [p \in 1..5 |-> IF p \in {SAVING, WITHDRAWAL} THEN <<Reports(p, Nothing(n), "0", [retire |-> {}, debts |-> {}, assets |-> {}])>> ELSE <<>>]
Init0(s) == [W |-> [stores |-> s.stores, recs |-> [p \in 1..5 |-> EmptyRec],
                    called |-> [p \in 1..5 |-> FALSE], past |-> [p \in 1..5 |-> <<>>]],
             base |-> [k \in DOMAIN s.stores |-> s.stores[k].tx], mag |-> s.mag,
             K |-> [retire |-> SetOf(s.retire), debts |-> SetOf(s.debts), assets |-> SetOf(s.assets)],
             rep |-> Idle(Len(s.stores)), closed |-> [p \in 1..5 |-> <<>>]]
Rec(x) == [k \in 0..Len(x) - 1 |-> x[k + 1]]
Seen(M, e) == [k \in DOMAIN e.stores |-> [M.W.stores[k] EXCEPT !.tx = e.stores[k]]]
RecSeen(e) == [p \in DOMAIN e.recs |-> Rec(e.recs[p])]
SameRec(a, b, n, m) == \A k \in 0..n : SameFlows(RecOf(a, k), RecOf(b, k), m)
Matches(W, e, m) ==
  /\ \A k \in DOMAIN W.stores : SameFlows(W.stores[k].tx, e.stores[k], m)
  /\ \A p \in DOMAIN W.recs : SameRec(W.recs[p], RecSeen(e)[p], Len(e.stores), m)
Adopt(M, W, e) == [M EXCEPT !.W = [W EXCEPT !.stores = Seen(M, e), !.recs = RecSeen(e)]]
ObservedTimes(e) == UNION {DOMAIN e.stores[k] : k \in DOMAIN e.stores} \cup UNION {AllTimes(RecSeen(e)[p]) : p \in DOMAIN e.recs}
Kept(M, e) ==
  LET Z == [M.W EXCEPT !.stores = Seen(M, e), !.recs = RecSeen(e)]
  IN Clause("conserved", (\A p \in DOMAIN Z.recs : Balanced(Z.recs[p], M.mag)) /\ Accounted(Z, M.base, M.mag))
\* Figures agree.  What is withdrawn is only as exact as the strategy: within
\* "3/100000" of the shortfall it counts as the shortfall.
Near(p, a, b, m) == RCloseS(a, b, m) \/ (p = WITHDRAWAL /\ RLe(RAbs(RSub(a, b)), RAdd("3/100000", RMul("1/10000000000", m))))
SameReport(p, a, b, m) == \A f \in DOMAIN a : f \in DOMAIN b /\ Near(p, a[f], b[f], m)
Small(a, m) == RLe(RAbs(a), RMul("1/1000000000", m))

OnCall(M, e) ==
  LET p == e.p
      before == IF M.W.called[p] THEN Undo(M.W, p) ELSE M.W
      found == CashSum(before)
      O == CallPart(M.W, p, e.d, ObservedTimes(e))
      fit == {X \in O : Matches(X, e, M.mag)}
      W2 == IF fit = {} THEN M.W ELSE CHOOSE X \in fit : TRUE
      want == Reports(p, e.d, found, M.K)
      seen == RecSeen(e)[p]
      into(S) == RSum([k \in S |-> RSum(RecOf(seen, k))])
      S2 == [Adopt(M, W2, e) EXCEPT !.W.called[p] = TRUE, !.rep = [@ EXCEPT ![p] = <<e.rep>>, ![TAX] = IF p \in {INCOME, LIVING, SAVING, WITHDRAWAL} THEN <<>> ELSE <<e.rep>>]]
  IN IF e.err # "ok" THEN R(S2, {"error"})
     ELSE R(S2, Kept(M, e)
        \cup Clause("moves", fit # {})
        \cup Clause("found", RCloseS(e.found, found, M.mag))
        \cup Clause("reports", SameReport(p, want, e.rep, M.mag))
        \* the net figure is the change in cash
        \cup Clause("net-figure", SameReport(p, want, e.rep, M.mag) =>
               Near(p, RSub(StoreBalance(Seen(M, e)[CASH], "1"), found), NetFigure(p, e.rep), M.mag))
        \* contributions, repayments and withdrawals are what the accounts got
        \cup (IF p = SAVING THEN Clause("apart", /\ RCloseS(e.rep.retirement_savings, into(M.K.retire), M.mag)
                                                 /\ RCloseS(e.rep.debt_repayment, into(M.K.debts), M.mag)
                                                 /\ RCloseS(e.rep.total, RAdd(e.rep.retirement_savings, e.rep.debt_repayment), M.mag)) ELSE {})
        \cup (IF p = WITHDRAWAL THEN Clause("apart", Near(p, e.rep.gross_withdrawals, RNeg(into(M.K.assets)), M.mag)) ELSE {})
        \cup (IF p \in {SAVING, WITHDRAWAL}
              THEN Clause("planned", /\ e.planned => (MayPlan(p, found) \/ Small(found, M.mag))
                                     /\ ~e.planned => (~MayPlan(p, found) \/ Small(found, M.mag))
                                     /\ e.planned => /\ RCloseS(e.pool, found, M.mag)
                                                     /\ SetOf(e.offered) = IF p = SAVING THEN M.K.retire \cup M.K.debts ELSE M.K.assets
                                     /\ e.kept = e.d.plan)
              ELSE {})
        \cup (IF p = SAVING /\ e.real THEN Clause("within-means", RLe(e.rep.total, RAdd(RMax(found, "0"), "1/1000"))) ELSE {})
        \cup (IF p = TAX THEN Clause("tax-times", e.times) ELSE {}))
OnUndo(M, e) ==
  LET W2 == Undo(M.W, e.p)
      S2 == [Adopt(M, W2, e) EXCEPT !.rep = [@ EXCEPT ![e.p] = Idle(Len(M.W.stores))[e.p], ![TAX] = <<>>]]
  IN IF e.err # "ok" THEN R(S2, {"error"})
     ELSE R(S2, Kept(M, e) \cup Clause("undo", Matches(W2, e, M.mag))
              \cup Clause("undone-report", S2.rep[e.p] # <<>> => SameReport(e.p, S2.rep[e.p][1], e.rep, M.mag)))
OnYear(M, e) ==
  LET n == Len(M.W.stores)
      \* the accounts and the cash start the year as observed
      S2 == [M EXCEPT !.W = [stores |-> e.fresh, recs |-> [p \in 1..5 |-> EmptyRec], called |-> [p \in 1..5 |-> FALSE],
                             past |-> [p \in 1..5 |-> Append(M.W.past[p], M.W.recs[p])]],
                      !.base = [k \in DOMAIN e.fresh |-> e.fresh[k].tx],
                      !.rep = Idle(n), !.closed = [p \in 1..5 |-> Append(@[p], M.rep[p])]]
  IN IF e.err # "ok" THEN R(S2, {"error"})
     ELSE R(S2, Clause("new-year", \A p \in 1..5 : SameRec(EmptyRec, RecSeen(e)[p], n, M.mag))
              \cup Clause("new-year-report", \A p \in {SAVING, WITHDRAWAL} : SameReport(p, Idle(n)[p][1], e.reps[p], M.mag)))
\* What was reported in the years that are over is on record.
OnHist(M, e) ==
  R(M, Clause("history", \A p \in 1..5 : Len(e.hist[p]) = Len(M.closed[p]) /\
         \A i \in DOMAIN e.hist[p] : M.closed[p][i] # <<>> => SameReport(p, e.hist[p][i], M.closed[p][i][1], M.mag))
       \cup Clause("moves-history", \A p \in 1..5 : Len(e.past[p]) = Len(M.W.past[p]) /\
         \A i \in DOMAIN e.past[p] : SameRec(M.W.past[p][i], Rec(e.past[p][i]), Len(M.W.stores), M.mag)))
Step(M, e) ==
  CASE e.ev = "call" -> OnCall(M, e)
    [] e.ev = "undo" -> OnUndo(M, e)
    [] e.ev = "year" -> OnYear(M, e)
    [] e.ev = "hist" -> OnHist(M, e)
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
