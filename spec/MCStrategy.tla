----------------------------- MODULE MCStrategy -----------------------------
(* Accounts of some classes, debts among them, are given to every strategy of a *)
(* family; the tree the strategy stands for is filled and C15 checked of it.     *)
EXTENDS Strategy, Json
CONSTANTS Emit, Size
VARIABLES S, A, Q, ph, mins, fin
vars == <<S, A, Q, ph, mins, fin>>
Plain(c) == [cls |-> c, bal |-> "10", rate |-> "1/20", lo |-> "0", hi |-> "inf"]
D(c, b, r, mn) == [cls |-> c, bal |-> RNeg(b), rate |-> r, lo |-> mn, hi |-> b]
First == {Plain("Account"), [Plain("RRSP") EXCEPT !.hi = "5"]} \cup (IF Size > 0 THEN {Plain("TaxableAccount")} ELSE {})
Second == {[Plain("TFSA") EXCEPT !.hi = "2", !.lo = "1"], [Plain("Account") EXCEPT !.hi = "2"], D("Mortgage", "4", "1/10", "0")}
Third == {D("Debt", "6", "3/20", "1"), D("Debt", "2", "1/20", "1")} \cup (IF Size > 0 THEN {D("Debt", "0", "3/20", "0")} ELSE {})
Fourth == {D("Mortgage", "5", "1/50", "2"), D("Debt", "3", "1/4", "2")}
Lists == {("Account" :> "1"), ("RegisteredAccount" :> "1") @@ ("Account" :> "3"),
          ("Debt" :> "2") @@ ("TFSA" :> "1"), ("Mortgage" :> "3") @@ ("Debt" :> "2") @@ ("Account" :> "1")}
        \cup (IF Size > 0 THEN {("LinkedLimitAccount" :> "2") @@ ("TFSA" :> "1") @@ ("Debt" :> "4")} ELSE {})
Highs == IF Size > 0 THEN {"none", "1/10", "3/20"} ELSE {"none", "1/10"}
Totals == IF Size > 0 THEN {"2", "7", "12", "30"} ELSE {"2", "9", "30"}
Init ==
  /\ \E a \in First, b \in Second, c \in Third, d \in Fourth : A = <<a, b, c, d>>
  /\ \E k \in {"Ordered", "Weighted"}, w \in Lists, dd \in {"Avalanche", "Snowball"}, h \in Highs :
       S = [kind |-> k, ws |-> w, debt |-> dd, high |-> h]
  /\ \E t \in Totals :
       Q = [T |-> StrategyTree(S, A), lo |-> [x \in 1..4 |-> A[x].lo], hi |-> [x \in 1..4 |-> A[x].hi],
            gmin |-> <<0, 0, 0, 0>>, gmax |-> <<0, 0, 0, 0>>, Gmin |-> <<>>, Gmax |-> <<>>, total |-> t, out |-> FALSE]
  /\ ph = 0 /\ mins = Zero(Q) /\ fin = Zero(Q)
PayMinimums == ph = 0 /\ ph' = 1 /\ mins' = AllocMin(Q) /\ fin' = mins' /\ UNCHANGED <<S, A, Q>>
ShareRest == ph = 1 /\ ph' = 2 /\ fin' = AllocMax(Q, mins) /\ UNCHANGED <<S, A, Q, mins>>
Next == PayMinimums \/ ShareRest
Spec == Init /\ [][Next]_vars
Done == ph = 2
\* Every account counts once at most.
Proper == IsTree(Q.T) /\ Leaves(Q.T, 1) = DOMAIN A \ Unlisted(S, A)
HighDebtsFirst == Done => HighFirst(S, A, Q, mins, fin)
Debts == {x \in DOMAIN A : IsDebt(A[x]) /\ ~HighDebt(S, A[x])}
SameKey == Cardinality({Key(S, A[x]) : x \in Debts}) = 1 /\ \A x \in DOMAIN A : Key(S, A[x]) \in {Key(S, A[y]) : y \in Debts} => IsDebt(A[x])
InOrder == Done => /\ DebtsInOrder(S.debt, A, {x \in DOMAIN A : HighDebt(S, A[x])}, Q, mins, fin)
                   /\ SameKey => DebtsInOrder(S.debt, A, Debts \ Unlisted(S, A), Q, mins, fin)
Nothing == NothingUnlisted(S, A, fin)
\* Ordered strategies go by weight: no money beyond minimums for a class while
\* one listed before it could take more.
ByRank == (Done /\ S.kind = "Ordered") =>
  \A x, y \in DOMAIN A \ Unlisted(S, A) :
    (~HighDebt(S, A[x]) /\ ~HighDebt(S, A[y]) /\ RLt(S.ws[Key(S, A[x])], S.ws[Key(S, A[y])]) /\ Lt(mins[y], fin[y]))
      => NoMoreOwn(Q, fin, x)
Rules == Done => UsesAll(Q, fin) /\ MinsFirst(Q, fin) /\ WithinTotal(Q, fin) /\ WithinOwn(Q, fin)
EmitAll == (Emit /\ Done) => PrintT(<<"GEN", ToJson([S |-> S, A |-> A, total |-> Q.total])>>)
=============================================================================
