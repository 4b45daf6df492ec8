------------------------------ MODULE MCParts ------------------------------
(* Calls, repeated calls and undoing of the parts of a forecast, in any order *)
(* and over several years, for small incomes, expenses, plans and taxes.       *)
EXTENDS Parts, Json, TLC
CONSTANTS Depth, Size, Emit
VARIABLES W, D, rep, hist, cash0, closed
vars == <<W, D, rep, hist, cash0, closed>>
\* Store 2: savings; 3: a debt; flows only, as nothing grows in this model.
Acct(o) == [kind |-> "account", open |-> o, rate |-> "0", nper |-> "1", limit |-> "inf", exact |-> TRUE, tx |-> MNone]
Cash == [kind |-> "cash", open |-> "0", rate |-> "0", nper |-> "1", limit |-> "inf", exact |-> TRUE, tx |-> MNone]
Debt == [Acct("-8") EXCEPT !.limit = "0"]
K == [retire |-> {2}, debts |-> {3}, assets |-> {2}]
Half == <<<<"1/2", "1">>>>
Ends == <<<<"0", "1">>, <<"1", "1">>>>
Person(n, h, w) == [gross |-> RAdd(n, h), withheld |-> h, net |-> n, w |-> w]
Folk == {<<Person("4", "1", Half)>>, <<Person("0", "0", Half)>>, <<Person("3", "0", Ends), Person("1", "0", Half)>>}
        \cup (IF Size = 0 THEN {} ELSE {<<Person("0", "0", Ends), Person("0", "0", Half)>>})
Livings == {"1", "5"} \cup (IF Size = 0 THEN {} ELSE {"0", "4"})
\* What a strategy makes of the cash found: all saved (partly as repayment), or
\* withdrawn up to what there is.
SavePlan(c, n) == IF n = 0 THEN <<[k |-> 2, txs |-> <<<<"1/2", c>>>>]>>
                  ELSE <<[k |-> 3, txs |-> <<<<"0", RDiv(c, "2")>>>>], [k |-> 2, txs |-> <<<<"1/2", RDiv(c, "4")>>, <<"1", RDiv(c, "4")>>>>]>>
TakePlan(c) == LET v == RMax(c, RNeg(StoreBalance(W.stores[2], "1"))) IN
  IF RZero(v) THEN <<>> ELSE <<[k |-> 2, txs |-> <<<<"1/2", v>>>>]>>
Before(p) == IF W.called[p] THEN Undo(W, p) ELSE W
PlanFor(p, c) == IF ~MayPlan(p, c) THEN <<>> ELSE IF p = SAVING THEN SavePlan(c, D.n) ELSE TakePlan(c)
Given(p, c) == [people |-> D.people, living |-> D.living,
                plan |-> IF p \in {SAVING, WITHDRAWAL} THEN PlanFor(p, c) ELSE <<>>,
                held |-> (2 :> IF p = WITHDRAWAL THEN RDiv(RNeg(PlanSum(PlanFor(p, c), {2})), "4") ELSE "0") @@ (3 :> "0"),
                accheld |-> <<>>, owing |-> "1"]
Init == /\ \E f \in Folk, v \in Livings, n \in {0, 1} : D = [people |-> f, living |-> v, n |-> n]
        /\ W = [stores |-> <<Cash, Acct("3"), Debt>>, recs |-> [p \in 1..5 |-> EmptyRec],
                called |-> [p \in 1..5 |-> FALSE], past |-> [p \in 1..5 |-> <<>>]]
        /\ rep = [p \in 1..5 |-> <<>>]
        /\ hist = <<>> /\ cash0 = "0" /\ closed = <<>>
Times3 == {"0", "1/2", "1"}
DoCall == \E p \in 1..5 :
  LET c == CashSum(Before(p))  d == Given(p, c) IN
  /\ W' \in CallPart(W, p, d, Times3)
  /\ rep' = [rep EXCEPT ![p] = <<Reports(p, d, c, K)>>]
  /\ hist' = Append(hist, [op |-> "call", p |-> p])
  /\ UNCHANGED <<cash0, closed>>
DoUndo == \E p \in 1..5 :
  /\ W.called[p] /\ W' = Undo(W, p)
  /\ rep' = [rep EXCEPT ![p] = <<>>] /\ UNCHANGED <<cash0, closed>>
  /\ hist' = Append(hist, [op |-> "undo", p |-> p])
\* The year ends: parts, accounts and cash start afresh.
DoYear ==
  LET X == NewYear(NewYear(NewYear(NewYear(NewYear(W, 1), 2), 3), 4), 5) IN
  /\ \E p \in 1..5 : W.called[p]
  /\ W' = [X EXCEPT !.stores = [k \in DOMAIN @ |-> IF k = CASH THEN [Cash EXCEPT !.tx = IF RZero(CashSum(W)) THEN MNone ELSE "0" :> CashSum(W)]
                                   ELSE [@[k] EXCEPT !.open = StoreBalance(X.stores[k], "1"), !.tx = MNone]]]
  /\ closed' = Append(closed, rep) /\ rep' = [p \in 1..5 |-> <<>>]
  /\ cash0' = CashSum(W) 
  /\ hist' = Append(hist, [op |-> "year"])
Next == Len(hist) < Depth /\ (DoCall \/ DoUndo \/ DoYear) /\ UNCHANGED D
Spec == Init /\ [][Next]_vars
Fig(p) == IF rep[p] = <<>> THEN "0" ELSE NetFigure(p, rep[p][1])
\* The cash is what the year began with and what the parts report.
CashIs == REq(CashSum(W), RAdd(cash0, RAdd(Fig(1), RAdd(Fig(2), RAdd(Fig(3), RAdd(Fig(4), Fig(5)))))))
\* What a part reports is what its record says it moved.
Tells == \A p \in 1..5 : REq(RSum(RecOf(W.recs[p], CASH)), Fig(p))
\* Contributions, repayments and withdrawals do not overlap.
Apart == /\ rep[3] # <<>> => /\ REq(rep[3][1].total, RAdd(rep[3][1].retirement_savings, rep[3][1].debt_repayment))
                               /\ REq(rep[3][1].retirement_savings, MovedInto(W, 3, {2}))
                               /\ REq(rep[3][1].debt_repayment, MovedInto(W, 3, {3}))
                               /\ RLe("0", rep[3][1].retirement_savings) /\ RLe("0", rep[3][1].debt_repayment)
         /\ rep[4] # <<>> => /\ REq(rep[4][1].gross_withdrawals, RNeg(MovedInto(W, 4, {2})))
                               /\ RLe("0", rep[4][1].gross_withdrawals)
                               /\ REq(MovedInto(W, 4, {3}), "0")
\* All money is somewhere: in the accounts, in cash, or outside.
Even == \A p \in 1..5 : Balanced(W.recs[p], "1")
\* Parts called in order leave no cash short unless savings ran out.
InOrder == Len(hist) >= 4 /\ \A i \in 1..4 : hist[i].op = "call" /\ hist[i].p = i
Covered == (Len(hist) = 4 /\ InOrder /\ RLe("0", cash0) /\ RIsNeg(CashSum(W))) =>
              \/ StoreBalance(W.stores[2], "1") = "0" \/ ~RZero(rep[4][1].tax_withheld)
EmitAll == (Emit /\ Len(hist) = Depth) => PrintT(<<"GEN", ToJson([D |-> D, hist |-> hist])>>)
=============================================================================
