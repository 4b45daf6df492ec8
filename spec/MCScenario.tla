----------------------------- MODULE MCScenario -----------------------------
(* Growth factors over every sequence of a few rates; the walk visits every  *)
(* triple of years.                                                          *)
EXTENDS Scenario, Json, Integers
CONSTANTS First, Len0, RateTags, Emit
RatesOf == [a |-> "0", b |-> "1/10", c |-> "-1/2", d |-> "1", e |-> "-99/100"]
VARIABLES rates, a, b, c
vars == <<rates, a, b, c>>
Span == First..(First + Len0)
R(y) == RatesOf[rates[y]]
Init == /\ rates \in [First..(First + Len0 - 1) -> RateTags]
        /\ a = First /\ b = First /\ c = First
Next == \E x, y, z \in Span : a' = x /\ b' = y /\ c' = z /\ UNCHANGED rates
Spec == Init /\ [][Next]_vars
F(x, y) == Factor(R, x, y)
One == F(a, a) = "1"
Composes == RMul(F(a, b), F(b, c)) = F(a, c)
Inverts == RMul(F(a, b), F(b, a)) = "1"
Positive == RPos(F(a, b))
Step1 == b + 1 \in Span => F(a, b + 1) = RMul(F(a, b), RAdd("1", R(b)))
EmitAll == (Emit /\ a = First /\ b = First /\ c = First) => PrintT(<<"GEN", ToJson([rates |-> [i \in 1..Len0 |-> R(First + i - 1)]])>>)
=============================================================================
