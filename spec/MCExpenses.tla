----------------------------- MODULE MCExpenses -----------------------------
(* Working, then retired, for every pair of rules and a minimum.             *)
EXTENDS Expenses, Json, TLC
CONSTANTS Years, Emit
VARIABLES work, rest, min, ret, y, inc, up
vars == <<work, rest, min, ret, y, inc, up>>
First == 2000
Last == First + Years
Price(t) == IF up THEN RInt(1 + t - First) ELSE "1"
F(t, b) == RDiv(Price(t), Price(b))
Rule(n) == [rule |-> n, base |-> "50", rate |-> "1/2", real |-> TRUE]
Nested == [working |-> Rule("Constant living expenses"),
           retirement |-> [Rule("Percentage of net income") EXCEPT !.rate = "1/4"], minimum |-> <<>>]
Floors == {<<>>, <<Nested>>, <<[rule |-> "Constant living expenses", base |-> "30", rate |-> "0", real |-> TRUE]>>}
H == [k \in {RInt(t) : t \in First..Last} |->
      LET g == RMul(RInt(inc), k) IN [gross |-> RInt(inc), net |-> RInt(inc - 20), principal |-> "400"]]
Init == /\ work \in Rules /\ rest \in Rules /\ min \in Floors
        /\ ret \in {0} \cup First..Last /\ y = First /\ inc \in {0, 30, 200} /\ up \in BOOLEAN
Next == /\ y < Last /\ y' = y + 1 /\ inc' \in {0, 30, 200} /\ UNCHANGED <<work, rest, min, ret, up>>
Spec == Init /\ [][Next]_vars
S == [working |-> Rule(work), retirement |-> Rule(rest), minimum |-> min]
X == Planned(S, H, F, First, y, ret)
NonNegative == RLe("0", X)
Floor == min # <<>> /\ min[1] = Nested =>
           RLe(IF ret # 0 /\ y > ret THEN RMul("1/4", H[RInt(y)].net) ELSE RMul("50", F(y, First)), X)
Floor1 == min # <<>> /\ min[1] # Nested => RLe(RMul("30", F(y, First)), X)
\* Exactly one of the two rules applies, by the retirement year.
Phases == min = <<>> => X = Spend(Rule(IF ret = 0 \/ y <= ret THEN work ELSE rest), H, F, First, y, IF ret = 0 THEN y ELSE ret)
RealConstant == (min = <<>> /\ work = "Constant living expenses" /\ (ret = 0 \/ y <= ret)) => RDiv(X, Price(y)) = "50"
\* Contributions, not expenses, are what a constant contribution keeps constant.
Contribution == (min = <<>> /\ work = "Constant contribution" /\ (ret = 0 \/ y <= ret) /\ RPos(X))
                => RSub(H[RInt(y)].net, X) = RMul("50", F(y, First))
=============================================================================
