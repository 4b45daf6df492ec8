------------------------------- MODULE MCPlan -------------------------------
(* Accounts advance one call at a time: the first of a plan to be advanced   *)
(* settles the room and takes the others along; later calls find them there. *)
EXTENDS Plan, Json
CONSTANTS Depth, Emit, Years
VARIABLES P, yr, ops, accrued, paid, taken
vars == <<P, yr, ops, accrued, paid, taken>>
K == [accrual |-> "1/2", max |-> ("2000" :> "6"), last |-> "71", tfsa |-> ("2000" :> "4") @@ ("2001" :> "7"),
      step |-> "2", eligible |-> "18"]
F(t, b) == IF t = b THEN "1" ELSE "3/2"
Accs == {"a", "b", "c", "d"}
Key == [a \in Accs |-> IF a \in {"a", "b"} THEN "t" ELSE "r"]
Keys == {"t", "r"}
Age(y) == y - 1980
Income(y) == RInt(10 + y - 2000)
Init == /\ P = [year |-> 2000, of |-> Key, tx |-> [a \in Accs |-> NoTx],
                plans |-> ("t" :> [kind |-> "tfsa", room |-> "5", given |-> ("2002" :> "3")]) @@
                          ("r" :> [kind |-> "rrsp", room |-> "2", given |-> <<>>])]
        /\ yr = [a \in Accs |-> 2000] /\ ops = <<>>
        /\ accrued = [k \in Keys |-> P.plans[k].room] /\ paid = [k \in Keys |-> "0"] /\ taken = [k \in Keys |-> "0"]
\* Each plan has its own year here: P is read as of the plan's year.
At(k) == [P EXCEPT !.year = yr[CHOOSE a \in Accs : Key[a] = k]]
Put(a, v) == /\ P' = [P EXCEPT !.tx[a] = APut(@, "0", RAdd(AGet(@, "0"), v))]
             /\ ops' = Append(ops, [op |-> "add", a |-> a, v |-> v])
             /\ UNCHANGED <<yr, accrued>>
Deposit(a, v) == /\ RLe(v, Left(At(Key[a]), Key[a])) /\ P.tx[a] = NoTx /\ Put(a, v)
                 /\ paid' = [paid EXCEPT ![Key[a]] = RAdd(@, v)] /\ UNCHANGED taken
Withdraw(a, v) == /\ P.tx[a] = NoTx /\ Put(a, RNeg(v))
                  /\ taken' = [taken EXCEPT ![Key[a]] = RAdd(@, v)] /\ UNCHANGED paid
Go(a) == LET k == Key[a]  Q == At(k)  y == yr[a] IN
  /\ y < 2000 + Years
  /\ \E r \in NextRoom(Q, k, K, F, Age(y + 1), Income(y)) :
       /\ P' = [P EXCEPT !.plans[k].room = r, !.tx = [b \in Accs |-> IF Key[b] = k THEN NoTx ELSE @[b]]]
       /\ accrued' = [accrued EXCEPT ![k] = RAdd(@, RSub(r, RSub(P.plans[k].room,
                        IF k = "r" THEN PlanIn(Q, k) ELSE RAdd(PlanIn(Q, k), PlanOut(Q, k)))))]
  /\ yr' = [b \in Accs |-> IF Key[b] = k THEN y + 1 ELSE yr[b]]
  /\ ops' = Append(ops, [op |-> "next", a |-> a, v |-> "0"])
  /\ UNCHANGED <<paid, taken>>
Next == Len(ops) < Depth /\ \E a \in Accs : Deposit(a, "2") \/ Withdraw(a, "1") \/ Go(a)
Spec == Init /\ [][Next]_vars
\* Room at any time: what has accrued, less deposits (and, in a tax-free plan,
\* plus withdrawals) of earlier years.
Conserved == \A k \in Keys : REq(P.plans[k].room,
  RAdd(RSub(accrued[k], RSub(paid[k], PlanIn(At(k), k))), IF k = "t" THEN RAdd(taken[k], PlanOut(At(k), k)) ELSE "0"))
\* No more is ever paid in than has accrued.
WithinRoom == \A k \in Keys : RLe(paid[k], RAdd(accrued[k], IF k = "t" THEN taken[k] ELSE "0"))
Together == \A a, b \in Accs : Key[a] = Key[b] => yr[a] = yr[b]
EmitAll == (Emit /\ Len(ops) = Depth) => PrintT(<<"GEN", ToJson([ops |-> ops])>>)
=============================================================================
