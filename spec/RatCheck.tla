------------------------------ MODULE RatCheck ------------------------------
(* The overrides of module Rat against rational arithmetic on small pairs. *)
EXTENDS Rat, FiniteSets
CONSTANTS N, D
VARIABLES x, y
Pairs == {p \in (-N..N) \X (1..D) : TRUE}
Init == x \in Pairs /\ y \in Pairs
Next == UNCHANGED <<x, y>>
S(p) == RDiv(RInt(p[1]), RInt(p[2]))
Abs(n) == IF n < 0 THEN -n ELSE n
PLe(a, b) == a[1] * b[2] <= b[1] * a[2]
Fl(p) == IF p[1] >= 0 THEN p[1] \div p[2] ELSE -((-p[1] + p[2] - 1) \div p[2])
Agree ==
  LET a == S(x)  b == S(y) IN
  /\ RAdd(a, b) = S(<<x[1]*y[2] + y[1]*x[2], x[2]*y[2]>>)
  /\ RSub(a, b) = S(<<x[1]*y[2] - y[1]*x[2], x[2]*y[2]>>)
  /\ RMul(a, b) = S(<<x[1]*y[1], x[2]*y[2]>>)
  /\ y[1] > 0 => RDiv(a, b) = S(<<x[1]*y[2], x[2]*y[1]>>)
  /\ y[1] < 0 => RDiv(a, b) = S(<<-(x[1]*y[2]), -(x[2]*y[1])>>)
  /\ RLe(a, b) = PLe(x, y)
  /\ RLt(a, b) = ~PLe(y, x)
  /\ (a = b) = (PLe(x, y) /\ PLe(y, x))
  /\ REq(a, b) = (a = b)
  /\ RMin(a, b) = (IF PLe(x, y) THEN a ELSE b)
  /\ RMax(a, b) = (IF PLe(x, y) THEN b ELSE a)
  /\ RNeg(a) = S(<<-x[1], x[2]>>)
  /\ RAbs(a) = S(<<Abs(x[1]), x[2]>>)
  /\ RFloor(a) = RInt(Fl(x))
  /\ RSumSeq(<<a, b, a>>) = RAdd(a, RAdd(b, a))
  /\ RCloseTol(a, b, "1/10") = RLe(RAbs(RSub(a, b)), RMul("1/10", RMax("1", RMax(RAbs(a), RAbs(b)))))
  /\ x[1] > 0 => RPow(a, "3") = RMul(a, RMul(a, a))
  /\ x[1] > 0 => RCloseTol(RMul(RPow(a, "1/2"), RPow(a, "1/2")), a, "1/1000000000000000000000000000000")
  /\ x[1] > 0 => RCloseTol(RPow(a, RAdd(b, "1/3")), RMul(RPow(a, b), RPow(a, "1/3")), "1/1000000000000000000000000000000")
  /\ RCloseTol(RExp(RAdd(a, b)), RMul(RExp(a), RExp(b)), "1/1000000000000000000000000000000")
=============================================================================
