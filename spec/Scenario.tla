------------------------------ MODULE Scenario ------------------------------
(***************************************************************************)
(* Scenarios (C21): yearly rates and the growth factors between years.     *)
(* A series of rates is a record                                           *)
(*   [k |-> "const", v |-> rate], [k |-> "list", v |-> <<rates>>] (from    *)
(*   the first year on) or [k |-> "table", v |-> year string -> rate].     *)
(***************************************************************************)
EXTENDS Rat, FiniteSets
Rate(s, init, y) ==
  CASE s.k = "const" -> s.v
    [] s.k = "list" -> s.v[y - init + 1]
    [] s.k = "table" -> s.v[RInt(y)]
RECURSIVE Grow(_, _, _)
\* Product of 1 + r[y] over y in [a, b).
Grow(R(_), a, b) == IF a >= b THEN "1" ELSE RMul(RAdd("1", R(a)), Grow(R, a + 1, b))
Factor(R(_), a, b) == IF a <= b THEN Grow(R, a, b) ELSE RDiv("1", Grow(R, b, a))
Years(init, n) == [i \in 1..n |-> init + i - 1]
=============================================================================
