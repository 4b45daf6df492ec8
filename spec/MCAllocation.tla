---------------------------- MODULE MCAllocation ----------------------------
(* Ageing under every strategy of a small grid.                              *)
EXTENDS Allocation, Integers, Json, TLC
CONSTANTS Ages, Rets, Pcts, Targets, Emit
VARIABLES p, ret, age
vars == <<p, ret, age>>
Lo == CHOOSE a \in Ages : \A b \in Ages : a <= b
Hi == CHOOSE a \in Ages : \A b \in Ages : b <= a
Step0 == 5
P(k, t, lo, hi, per, adj) == [kind |-> k, target |-> t, min |-> lo, max |-> hi, std |-> "65", period |-> RInt(per),
                           adjust |-> adj, fixed |-> <<>>]
Init == /\ \E lo, hi \in Pcts, per \in {0, 10, 20}, adj \in BOOLEAN :
             /\ RLe(lo, hi)
             /\ \/ \E t \in Targets : p = P("n-age", RInt(t), lo, hi, per, adj)
                \/ \E t \in Pcts : p = P("transition", t, lo, hi, per, adj)
        /\ ret \in Rets /\ age = Lo
Next == age + Step0 <= Hi /\ age' = age + Step0 /\ UNCHANGED <<p, ret>>
Spec == Init /\ [][Next]_vars
A(a) == Allocate(p, RInt(a), RInt(ret))
Shares == Total(A(age)) = "1"
Bounded == RLe(p.min, A(age).stocks) /\ RLe(A(age).stocks, p.max)
\* With a target inside the bounds nobody takes more risk with age.
Glide == (p.kind = "n-age" \/ (RLe(p.min, p.target) /\ RLe(p.target, p.max)))
         => RLe(A(age + Step0).stocks, A(age).stocks)
\* Retiring later never means less risk at the same age.
Later == (p.adjust /\ (p.kind = "n-age" \/ (RLe(p.min, p.target) /\ RLe(p.target, p.max))))
         => RLe(A(age).stocks, Allocate(p, RInt(age), RInt(ret + 5)).stocks)
Return1 == Return(A(age), [stocks |-> "1/20", bonds |-> "1/20", other |-> "1/20"]) = "1/20"
EmitAll == (Emit /\ age = Lo) => PrintT(<<"GEN", ToJson([p |-> [p EXCEPT !.fixed = "none"], ret |-> ret])>>)
=============================================================================
