------------------------------- MODULE MCRrsp -------------------------------
EXTENDS Rrsp, Json, Sequences
CONSTANTS Depth, Emit
VARIABLES Q, ops, room, moved, taxed
vars == <<Q, ops, room, moved, taxed>>
K == [last |-> "71", least |-> ("71" :> "1/8") @@ ("72" :> "1/4"), wh |-> ("2000" :> (("0" :> "1/10") @@ ("10" :> "1/5")))]
F(t, b) == IF t = b THEN "1" ELSE IF t < b THEN "1/2" ELSE "2"
Init == /\ \E age \in {64, 69, 71}, agec \in {64, 70, 75} :
             Q = [A |-> AInit(2000, "80", ("*" :> "0"), "1", <<>>), born |-> 2000 - age, bornc |-> 2000 - agec, conv |-> "auto", shared |-> "0"]
        /\ ops = <<>> /\ room = "10" /\ moved = "0" /\ taxed = "0"
Op(o, y, v) == ops' = Append(ops, [op |-> o, y |-> y, v |-> v])
DoConvert(y) == /\ Q' = (IF MayConvert(Q, K, y) THEN Convert(Q, y) ELSE Q) /\ Op("convert", y, "0") /\ UNCHANGED <<room, moved, taxed>>
Withdraw(v) == /\ RLe(v, BalanceAt(Q.A, "1")) /\ Q' = [Q EXCEPT !.A = AddTx(@, "0", RNeg(v))] /\ Op("add", 0, RNeg(v))
               /\ moved' = RAdd(moved, v) /\ UNCHANGED <<room, taxed>>
Deposit(v) == /\ RLe(v, RSub(room, Deductible(Q))) /\ Q' = [Q EXCEPT !.A = AddTx(@, "1", v)] /\ Op("add", 1, v) /\ UNCHANGED <<room, moved, taxed>>
Comply == LET v == RNeg(MustWithdraw(Q, K, ("1" :> "1"))) IN
          /\ RPos(v) /\ Q' = [Q EXCEPT !.A = AddTx(@, "1/2", RNeg(v))] /\ Op("comply", 0, v)
          /\ moved' = RAdd(moved, v) /\ UNCHANGED <<room, taxed>>
Go == /\ Q' = [Q EXCEPT !.A = ANext(@)] /\ Op("next", 0, "0") /\ taxed' = RAdd(taxed, Taxable(Q))
      /\ room' = NextRoom(Q, K, room, "4") /\ UNCHANGED moved
Next == Len(ops) < Depth /\ ((\E y \in {1999, 2001, 2003} : DoConvert(y)) \/ Withdraw("20") \/ Deposit("8") \/ Comply \/ Go)
Spec == Init /\ [][Next]_vars
\* A converted plan never gets past the mandatory year unconverted.
ByLaw == ConvYear(Q, K) <= Mandatory(Q, K) /\ (AgeIn(Q, Q.A.year) > 71 => RPos(Least(Q, K)) \/ RZero(Open(Q.A)))
\* The minimum can be met out of the plan, and is once complied with.
Feasible == RLe(Least(Q, K), Open(Q.A)) /\ RLe("0", Least(Q, K))
Complied == ops # <<>> /\ ops[Len(ops)].op = "comply" => RLe(Least(Q, K), Taxable(Q)) \/ RZero(BalanceAt(Q.A, "1"))
\* Withdrawals are taxed once.
TaxedOnce == REq(RAdd(taxed, Taxable(Q)), moved)
WithheldOk == \A x \in Withheld(Q, K, F) : RLe("0", x) /\ RLe(x, Taxable(Q))
\* Room is never overdrawn, and there is none once the contributor is too old.
RoomOk == /\ RLe("0", RSub(room, Deductible(Q)))
          /\ Q.A.year > 2000 /\ Q.A.year - Q.bornc > 71 => RZero(room) /\ RZero(Deductible(Q))
EmitAll == (Emit /\ Len(ops) = Depth) => PrintT(<<"GEN", ToJson([ops |-> ops, born |-> Q.born, bornc |-> Q.bornc])>>)
=============================================================================
