-------------------------------- MODULE Tax --------------------------------
(***************************************************************************)
(* Income tax (C09): a bracket table for some years, indexed to the rest.  *)
(* Brackets are functions from thresholds to rates; a table maps a year    *)
(* (as a string) to brackets or to a figure.  F(t, b) is the indexation    *)
(* from year b to year t.                                                  *)
(***************************************************************************)
EXTENDS Rat, Integers, FiniteSets
YearsOf(tab) == {RToInt(k) : k \in DOMAIN tab}
\* The listed year y takes its figures from: the latest not after y, or else
\* the earliest.
From(tab, y) ==
  LET T == YearsOf(tab) IN
  IF \E k \in T : k <= y THEN CHOOSE k \in T : k <= y /\ \A j \in T : j <= y => j <= k
  ELSE CHOOSE k \in T : \A j \in T : k <= j
\* Thresholds are indexed, rates are not.
Brackets(tab, F(_, _), y) ==
  LET b == From(tab, y)  B == tab[RInt(b)]  x == F(y, b) IN
  IF b = y THEN B
  ELSE [t \in {RMul(k, x) : k \in DOMAIN B} |-> B[CHOOSE k \in DOMAIN B : RMul(k, x) = t]]
Indexed(tab, F(_, _), y) == LET b == From(tab, y) IN IF b = y THEN tab[RInt(b)] ELSE RMul(tab[RInt(b)], F(y, b))
Unindexed(tab, y) == tab[RInt(From(tab, y))]

Above(B, b) == RMinSet({t \in DOMAIN B : RLt(b, t)})
\* The part of x between threshold b and the next.
Inside(B, b, x) == RMax("0", RSub(RMin(x, Above(B, b)), b))
TaxOn(B, x) == RSumOver([b \in DOMAIN B |-> RMul(B[b], Inside(B, b, x))], DOMAIN B)
\* Brackets include their upper end.
MarginalBracket(B, x) == LET L == {b \in DOMAIN B : RLt(b, x)} IN IF L = {} THEN RMinSet(DOMAIN B) ELSE RMaxSet(L)
\* Credits are not refundable.
Owing(B, x, ded, cred, cr) == RMax("0", RSub(TaxOn(B, RSub(x, ded)), RMul(cred, cr)))
=============================================================================
