------------------------------- MODULE Extend -------------------------------
(***************************************************************************)
(* Extending figures given for some years to every year (C22).             *)
(***************************************************************************)
EXTENDS Rat, Integers, FiniteSets
\* The listed year that year y takes its figure from; T is the set of
\* listed years (not empty).
Nearest(T, y) ==
  IF \E k \in T : k <= y THEN CHOOSE k \in T : k <= y /\ \A j \in T : j <= y => j <= k
  ELSE CHOOSE k \in T : \A j \in T : k <= j
\* Figures are [k |-> "num", v |-> x], [k |-> "map", v |-> key -> x],
\* [k |-> "seq", v |-> <<x...>>].
Scale(f, x) == CASE f.k = "num" -> [f EXCEPT !.v = RMul(@, x)]
                 [] OTHER -> [f EXCEPT !.v = [i \in DOMAIN @ |-> RMul(@[i], x)]]
FClose(f, g) ==
  /\ f.k = g.k
  /\ IF f.k = "num" THEN RClose(f.v, g.v)
     ELSE DOMAIN f.v = DOMAIN g.v /\ \A i \in DOMAIN f.v : RClose(f.v[i], g.v[i])
\* Indexation between years: F(target, base).
Figure(tab(_), T, F(_, _), y) ==
  IF y \in T THEN tab(y) ELSE LET b == Nearest(T, y) IN Scale(tab(b), F(y, b))
=============================================================================
