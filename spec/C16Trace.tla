------------------------------ MODULE C16Trace ------------------------------
EXTENDS TraceBase, Moves
\* setup: stores (as in Moves; open, rate and nper as the code sees them),
\* parts (how many), scripts (one per part: the movements its call makes), mag.
R(s, bad) == [st |-> s, bad |-> bad]
Init0(s) == [W |-> [stores |-> s.stores, recs |-> [p \in 1..s.parts |-> EmptyRec],
                    called |-> [p \in 1..s.parts |-> FALSE], past |-> [p \in 1..s.parts |-> <<>>]],
             base |-> [k \in DOMAIN s.stores |-> s.stores[k].tx], scripts |-> s.scripts, mag |-> s.mag]
\* What was observed: the stores' flows and the parts' records.
\* (JSON: records are sequences whose k-th entry belongs to store k - 1)
Rec(x) == [k \in 0..Len(x) - 1 |-> x[k + 1]]
Seen(M, e) == [k \in DOMAIN e.stores |-> [M.W.stores[k] EXCEPT !.tx = e.stores[k]]]
RecSeen(e) == [p \in DOMAIN e.recs |-> Rec(e.recs[p])]
SameRec(a, b, K, m) == \A k \in K : SameFlows(RecOf(a, k), RecOf(b, k), m)
Matches(W, e, m) ==
  /\ \A k \in DOMAIN W.stores : SameFlows(W.stores[k].tx, e.stores[k], m)
  /\ \A p \in DOMAIN W.recs : SameRec(W.recs[p], RecSeen(e)[p], 0..Len(e.stores), m)
Adopt(M, W, e) == [M EXCEPT !.W = [W EXCEPT !.stores = Seen(M, e), !.recs = RecSeen(e)]]
ObservedTimes(e) == UNION {DOMAIN e.stores[k] : k \in DOMAIN e.stores} \cup UNION {AllTimes(RecSeen(e)[p]) : p \in DOMAIN e.recs}
\* Clauses on their own, whatever the outcome.
Kept(M, e) ==
  LET Z == [M.W EXCEPT !.stores = Seen(M, e), !.recs = RecSeen(e)]
  IN Clause("conserved", (\A p \in DOMAIN Z.recs : Balanced(Z.recs[p], M.mag)) /\ Accounted(Z, M.base, M.mag))
     \cup Clause("record-keys", e.keys)
\* the cash a part finds: what the schedule holds over the year, or what an account could pay at its end
AtHand(S) == IF S.kind = "cash" THEN StoreBalance(S, "1") ELSE RMin(RMax("0", StoreBalance(S, "1")), S.limit)
After(M, e, O, name) ==
  IF e.err # "ok" THEN R(Adopt(M, M.W, e), {"error"})
  ELSE LET bad == Kept(M, e)
           fit == {X \in O : Matches(X, e, M.mag)}
           W2 == IF fit = {} THEN CHOOSE X \in O \cup {M.W} : TRUE ELSE CHOOSE X \in fit : TRUE
       IN R(Adopt(M, W2, e), bad \cup Clause(name, fit # {}))
Step(M, e) ==
  CASE e.ev = "moves" -> After(M, e, Moves(M.W, IF e.group THEN Grouped(e.mvs) ELSE e.mvs, ObservedTimes(e)), "movement")
    [] e.ev = "call"  ->
         LET r == After(M, e, Call(M.W, e.p, M.scripts[e.p], ObservedTimes(e)), "call")
             before == IF M.W.called[e.p] THEN Undo(M.W, e.p) ELSE M.W
         IN R([r.st EXCEPT !.W.called[e.p] = TRUE],
              r.bad \cup Clause("cash-at-hand", e.err # "ok" \/ RCloseS(e.avail, AtHand(before.stores[e.pool]), M.mag)))
    [] e.ev = "undo"  -> After(M, e, {Undo(M.W, e.p)}, "undo")
    [] e.ev = "year"  ->
         LET W2 == NewYear(M.W, e.p)
             r == After([M EXCEPT !.base = [k \in DOMAIN @ |-> Merge(@[k], RecOf(M.W.recs[e.p], k))]], e, {W2}, "new-year")
         IN r
    [] e.ev = "past"  ->
         R(M, Clause("history", Len(e.past) = Len(M.W.past[e.p])
                      /\ \A i \in DOMAIN e.past : SameRec(M.W.past[e.p][i], Rec(e.past[i]), 0..Len(M.W.stores), M.mag)))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
