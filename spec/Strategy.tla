------------------------------ MODULE Strategy ------------------------------
(***************************************************************************)
(* Named strategies (C15): which priority tree (module Alloc) a strategy   *)
(* stands for, given the accounts.  An account is a record                 *)
(*   cls    its class          bal, rate  its balance and interest rate    *)
(* A strategy is a record                                                  *)
(*   kind   "Ordered" or "Weighted"                                        *)
(*   ws     the names of classes it lists, with their weights              *)
(*   debt   "Avalanche" or "Snowball"                                      *)
(*   high   the rate from which debts are high-interest, or "none"         *)
(***************************************************************************)
EXTENDS Alloc
\* The classes an account of the given class also belongs to, nearest first.
Chain == [Account |-> <<"Account">>,
          Debt |-> <<"Debt", "Account">>,
          TaxableAccount |-> <<"TaxableAccount", "Account">>,
          PrincipleResidence |-> <<"PrincipleResidence", "Account">>,
          LinkedLimitAccount |-> <<"LinkedLimitAccount", "Account">>,
          RegisteredAccount |-> <<"RegisteredAccount", "LinkedLimitAccount", "Account">>,
          RRSP |-> <<"RRSP", "RegisteredAccount", "LinkedLimitAccount", "Account">>,
          TFSA |-> <<"TFSA", "RegisteredAccount", "LinkedLimitAccount", "Account">>,
          Mortgage |-> <<"Mortgage", "Debt", "Account">>,     \* a user's own kind of debt
          Savings |-> <<"Savings", "TaxableAccount", "Account">>]
IsDebt(a) == \E i \in DOMAIN Chain[a.cls] : Chain[a.cls][i] = "Debt"
\* The listed class an account counts as, or "none".
Key(S, a) == LET c == Chain[a.cls]  I == {i \in DOMAIN c : c[i] \in DOMAIN S.ws} IN
             IF I = {} THEN "none" ELSE c[CHOOSE i \in I : \A j \in I : i <= j]
HighDebt(S, a) == S.high # "none" /\ IsDebt(a) /\ RIsNeg(a.bal) /\ RLe(S.high, a.rate)

\* ---- trees ----
LeafT(x) == <<[k |-> "leaf", leaf |-> x, kids |-> <<>>, ws |-> <<>>, mn |-> "inf", mx |-> "inf"]>>
Shift(T, d) == [n \in DOMAIN T |-> [T[n] EXCEPT !.kids = [i \in DOMAIN T[n].kids |-> T[n].kids[i] + d]]]
RECURSIVE Graft(_, _, _, _, _, _)
Graft(k, subs, ws, i, kids, T) ==
  IF i > Len(subs)
  THEN <<[k |-> k, leaf |-> 0, kids |-> kids, ws |-> ws, mn |-> "inf", mx |-> "inf"]>> \o T
  ELSE Graft(k, subs, ws, i + 1, Append(kids, Len(T) + 2), T \o Shift(subs[i], Len(T) + 1))
Ord(subs) == Graft("ord", subs, <<>>, 1, <<>>, <<>>)
Wt(subs, ws) == Graft("wt", subs, ws, 1, <<>>, <<>>)
\* The elements of a set of numbers, in the order of their figures f.
RECURSIVE SortBy(_, _)
SortBy(X, f) == IF X = {} THEN <<>>
                ELSE LET x == CHOOSE x \in X : \A y \in X : RLt(f[x], f[y]) \/ (REq(f[x], f[y]) /\ x <= y)
                     IN <<x>> \o SortBy(X \ {x}, f)
\* Debts in the order in which they are paid off.
DebtOrder(debt, A, X) ==
  SortBy(X, [x \in X |-> IF debt = "Avalanche" THEN RNeg(A[x].rate) ELSE RAbs(A[x].bal)])
DebtTree(debt, A, X) == LET s == DebtOrder(debt, A, X) IN Ord([i \in DOMAIN s |-> LeafT(s[i])])
\* One account stands for itself; debts are paid off in order; other accounts
\* that count as the same share equally.
GroupTree(S, A, X) ==
  IF \A x \in X : IsDebt(A[x]) THEN DebtTree(S.debt, A, X)
  ELSE IF Cardinality(X) = 1 THEN LeafT(CHOOSE x \in X : TRUE)
  ELSE LET s == SortBy(X, [x \in X |-> "0"]) IN Wt([i \in DOMAIN s |-> LeafT(s[i])], [i \in DOMAIN s |-> "1"])
StrategyTree(S, A) ==
  LET high == {x \in DOMAIN A : HighDebt(S, A[x])}
      low == DOMAIN A \ high
      keys == {Key(S, A[x]) : x \in low} \ {"none"}
      ks == LET num == [x \in low |-> IF Key(S, A[x]) = "none" THEN "0" ELSE S.ws[Key(S, A[x])]]
                first == {x \in low : Key(S, A[x]) # "none" /\ \A y \in low : Key(S, A[y]) = Key(S, A[x]) => x <= y}
            IN SortBy(first, num)            \* one account of each key, by weight
      subs == [i \in DOMAIN ks |-> GroupTree(S, A, {x \in low : Key(S, A[x]) = Key(S, A[ks[i]])})]
      main == IF S.kind = "Ordered" THEN Ord(subs) ELSE Wt(subs, [i \in DOMAIN ks |-> S.ws[Key(S, A[ks[i]])]])
  IN IF high = {} THEN main ELSE Ord(<<DebtTree(S.debt, A, high), main>>)
\* Accounts that count as the same as each other or as nothing.
Unlisted(S, A) == {x \in DOMAIN A : ~HighDebt(S, A[x]) /\ Key(S, A[x]) = "none"}

\* ---- what C15 states, of an allocation f with minimums m ----
\* High-interest debts come before any money beyond what must be moved.
HighFirst(S, A, Q, m, f) ==
  \A h \in DOMAIN A, x \in DOMAIN A :
    (HighDebt(S, A[h]) /\ ~HighDebt(S, A[x]) /\ Lt(m[x], f[x])) => NoMoreOwn(Q, f, h)
\* Debts are paid off one after the other, beyond their minimum payments.
DebtsInOrder(debt, A, X, Q, m, f) ==
  LET s == DebtOrder(debt, A, X) IN
  \A i, j \in DOMAIN s : (i < j /\ Lt(m[s[j]], f[s[j]])) => NoMoreOwn(Q, f, s[i])
NothingUnlisted(S, A, f) == \A x \in Unlisted(S, A) : RZero(f[x])
Distinct(debt, A, X) == \A x, y \in X : x # y => IF debt = "Avalanche" THEN ~REq(A[x].rate, A[y].rate)
                                                  ELSE ~REq(RAbs(A[x].bal), RAbs(A[y].bal))
=============================================================================
