------------------------------ MODULE MCCanada ------------------------------
(* People marry, earn, withdraw and contribute; then the year is assessed.   *)
EXTENDS Canada, TLC, Json
CONSTANTS People, Incomes, Emit
VARIABLES f, y, win
vars == <<f, y, win>>
T1(v) == [k \in {"2000"} |-> v]
J == <<[tab |-> T1([b \in {"0", "20"} |-> IF b = "0" THEN "1/10" ELSE "1/2"]), ded |-> T1("5"), rate |-> T1("1/2"),
        pension |-> T1("4"), spousal |-> T1("12")],
       [tab |-> T1([b \in {"0"} |-> "1/4"]), ded |-> T1("10"), rate |-> T1("1/5"), pension |-> T1("8"), spousal |-> T1("6")]>>
F(t, b) == IF t = b THEN "1" ELSE IF t > b THEN "2" ELSE "1/2"
Blank(g) == [gross |-> g, own |-> <<>>, accounts |-> <<>>, spouse |-> "none", wd |-> <<>>]
Init == y = 2000 /\ win = <<{}, {}>> /\ f \in [People -> {Blank(g) : g \in Incomes}]
Marry(p, q) == /\ p # q /\ ~Married(f, p) /\ ~Married(f, q)
               /\ f' = [f EXCEPT ![p].spouse = q, ![q].spouse = p] /\ UNCHANGED <<y, win>>
\* A retirement account's contribution is deductible, its withdrawal taxable.
Tx(p, v) == /\ Len(f[p].wd) < 1
            /\ f' = [f EXCEPT ![p].wd = Append(@, v),
                              ![p].accounts = Append(@, [taxable |-> RMax("0", RNeg(v)), ded |-> RMax("0", v), cred |-> "0"])]
            /\ UNCHANGED <<y, win>>
Assess == /\ win = <<{}, {}>>
          /\ \E t \in {2000, 2003} : y' = t /\ \E W1 \in Winners(J[1], F, t, f), W2 \in Winners(J[2], F, t, f) : win' = <<W1, W2>>
          /\ UNCHANGED f
Next == \/ Assess
        \/ win = <<{}, {}>> /\ y = 2000 /\ \E p \in People : (\E q \in People : Marry(p, q)) \/ \E v \in {"6", "-3", "-9"} : Tx(p, v)
Spec == Init /\ [][Next]_vars
SomeWinners == \A i \in {1, 2} : Winners(J[i], F, y, f) # {}
AtMostOne == \A i \in {1, 2}, p \in People : p \in win[i] => Married(f, p) /\ f[p].spouse \notin win[i]
HigherIncome == \A i \in {1, 2} : \A p \in win[i] : RLe(Net(J[i], F, y, f[f[p].spouse]), Net(J[i], F, y, f[p]))
CreditBounds == \A i \in {1, 2}, p \in People :
  LET a == SpousalAmount(J[i], F, y, f[p])  b == PensionCredit(J[i], F, y, f[p]) IN
  /\ RLe("0", a) /\ RLe(a, Indexed(J[i].spousal, F, y)) /\ RLe("0", b) /\ RLe(b, Indexed(J[i].pension, F, y)) /\ RLe(b, Withdrawn(f[p]))
\* Marriage never costs, and is worth at most the credit at its rate.
Worth == \A i \in {1, 2}, p \in People :
  LET x == [ded |-> "0", cred |-> "0"]
      t == CanadaTax(J[i], F, y, f, win[i], p, x)  s == CanadaTax(J[i], F, y, f, {}, p, x) IN
  RLe(t, s) /\ RLe(RSub(s, t), RMul(Indexed(J[i].spousal, F, y), CreditRate(J[i], y)))
EmitAll == (Emit /\ y = 2000) => PrintT(<<"GEN", ToJson([f |-> f])>>)
=============================================================================
