------------------------------ MODULE MCMoves ------------------------------
(* Histories of movements, undo, calls and new years by two parts, over a    *)
(* cash pool and accounts whose rate doubles (or halves) a balance in half a *)
(* year.                                                                     *)
EXTENDS Moves, Json, TLC
CONSTANTS Depth, Size, Emit
VARIABLES W, base, hist, good, script
vars == <<W, base, hist, good, script>>
Grid == {"0", "1/2", "1"}
Fine == {"0", "1/4", "1/2", "3/4", "1"}
CashVals == IF Size <= 1 THEN {"-1", "2"} ELSE {"-1", "0", "2"}
CashTx == [Grid -> CashVals]
Rates == IF Size = 0 THEN {"3"} ELSE {"3", "-3/4", "0"}
AcctTx == IF Size = 0 THEN {MNone, "1" :> "-4"} ELSE {MNone, "1" :> "-4", "1/2" :> "2", "1/2" :> "-1"}
Cash(tx) == [kind |-> "cash", open |-> "0", rate |-> "0", nper |-> "1", limit |-> "inf", exact |-> TRUE, tx |-> tx]
Acct(r, tx, lim) == [kind |-> "account", open |-> "2", rate |-> r, nper |-> "1", limit |-> lim, exact |-> TRUE, tx |-> tx]
Mv(p, v, w, f, t, s) == [p |-> p, v |-> v, w |-> w, from |-> f, to |-> t, strict |-> s]
Init == \E c \in CashTx, r \in Rates, a \in AcctTx, lim \in (IF Size = 0 THEN {"inf"} ELSE {"inf", "1"}) :
  /\ W = [stores |-> <<Cash(c), Acct(r, a, lim)>>, recs |-> <<EmptyRec, EmptyRec>>,
          called |-> <<FALSE, FALSE>>, past |-> <<<<>>, <<>>>>]
  /\ base = <<c, a>>
  /\ hist = <<>> /\ good = TRUE
  /\ script \in {<<Mv(1, "1", <<<<"0", "1">>>>, 1, 2, FALSE)>>,
                 <<Mv(1, "2", <<<<"1/2", "1">>, <<"0", "3">>>>, 2, 1, FALSE), Mv(1, "-1", <<<<"0", "1">>>>, 1, 0, FALSE)>>}
Values == {"2", "-1"} \cup (IF Size = 0 THEN {} ELSE {"4"})
Weights2 == {<<<<"0", "1">>>>, <<<<"1/2", "1">>, <<"0", "1">>>>}
Ends == {<<1, 2>>, <<2, 1>>, <<1, 0>>, <<0, 2>>}
Moved == {Mv(p, v, w, e[1], e[2], s) : p \in {1}, v \in Values, w \in Weights2, e \in Ends, s \in BOOLEAN}
         \cup {Mv(2, v, <<<<"1/2", "1">>>>, e[1], e[2], FALSE) : v \in Values, e \in Ends}
\* The time a one-piece movement was written down at.
Took(S, when, v, t) ==
  /\ RLe(when, t)
  /\ \A u \in Fine : (RLe(when, u) /\ RLe(v, S.limit) /\ Covers(S, u, v)) => Covers(S, t, v) /\ RLe(t, u)
  /\ (t # when => Covers(S, t, v) /\ RLe(v, S.limit))
OnePiece(mv) ==
  LET neg == RIsNeg(mv.v)  f == IF neg THEN mv.to ELSE mv.from IN
  (f # 0 /\ ~mv.strict /\ Len(mv.w) = 1) =>
     \A t \in Times(W, f, mv.w[1][1], RAbs(mv.v), FALSE, Grid) : Took(W.stores[f], mv.w[1][1], RAbs(mv.v), t)
\* A payment finds a time in the model's grid, or the balance grows past it
\* between two of its times.
DoMove == \E mv \in Moved : /\ W' \in Move(W, mv, Grid)
                            /\ good' = (good /\ OnePiece(mv))
                            /\ hist' = Append(hist, [op |-> "move", mv |-> mv])
DoUndo == \E p \in {1, 2} : /\ W.recs[p] # EmptyRec
                            /\ W' = Undo(W, p)
                            /\ good' = good
                            /\ hist' = Append(hist, [op |-> "undo", p |-> p])
DoCall == LET O == Call(W, 1, script, Grid) IN
          /\ W' \in O
          \* calling again is like calling once
          /\ good' = (good /\ (W.recs[1] = EmptyRec => \A X \in O : \A Y \in Call(X, 1, script, Grid) :
                               \E Z \in O : \A k \in DOMAIN X.stores : SameFlows(Z.stores[k].tx, Y.stores[k].tx, "1")))
          /\ hist' = Append(hist, [op |-> "call", p |-> 1])
DoYear == \E p \in {1, 2} : /\ W.recs[p] # EmptyRec
                            /\ W' = NewYear(W, p) /\ good' = good
                            /\ hist' = Append(hist, [op |-> "year", p |-> p])
Next == Len(hist) < Depth /\ (DoMove \/ DoUndo \/ DoCall \/ DoYear) /\ UNCHANGED <<base, script>>
Spec == Init /\ [][Next]_vars
Good == good
Even == \A p \in {1, 2} : Balanced(W.recs[p], "1") /\ \A i \in DOMAIN W.past[p] : Balanced(W.past[p][i], "1")
\* Stores hold what they held and what the parts moved, this year or before.
RECURSIVE Old(_, _)
Old(past, k) == IF past = <<>> THEN MNone ELSE Merge(RecOf(Head(past), k), Old(Tail(past), k))
Account0 == Accounted(W, [k \in DOMAIN base |-> Merge(base[k], Merge(Old(W.past[1], k), Old(W.past[2], k)))], "1")
\* Taking back what both parts moved, in either order, restores the stores.
Restored == LET A == Undo(Undo(W, 1), 2)  B == Undo(Undo(W, 2), 1) IN
  \A k \in DOMAIN base :
    /\ SameFlows(A.stores[k].tx, B.stores[k].tx, "1")
    /\ SameFlows(A.stores[k].tx, Merge(base[k], Merge(Old(W.past[1], k), Old(W.past[2], k))), "1")
EmitAll == (Emit /\ Len(hist) = Depth) =>
   PrintT(<<"GEN", ToJson([stores |-> [k \in DOMAIN base |-> [W.stores[k] EXCEPT !.tx = base[k]]], hist |-> hist, script |-> script])>>)
=============================================================================
