---------------------------- MODULE MCHousehold ----------------------------
(* Assessing a group one pick at a time: any person left, together with      *)
(* their spouse when the spouse is left too.                                 *)
EXTENDS Household, TLC, Json
CONSTANTS People, Emit
VARIABLES spouse, group, left, total, seen, income, count
vars == <<spouse, group, left, total, seen, income, count>>
J1 == [tab |-> [y \in {"2000"} |-> [b \in {"0", "10"} |-> IF b = "0" THEN "1/10" ELSE "1/2"]],
       ded |-> [y \in {"2000"} |-> "5"], rate |-> [y \in {"2000"} |-> "1/2"]]
J2 == [tab |-> [y \in {"2000"} |-> [b \in {"0", "4"} |-> IF b = "0" THEN "0" ELSE "1/4"]], ded |-> <<>>, rate |-> <<>>]
F(t, b) == "1"
Facts(p) == [gross |-> RInt(income[p]), own |-> <<>>,
             accounts |-> <<[taxable |-> "3", ded |-> "2", cred |-> "1"], [taxable |-> "0", ded |-> "1", cred |-> "0"]>>]
None0 == [ded |-> "0", cred |-> "0"]
Tax1(j, p) == PersonTax(j, F, 2000, Facts(p), None0)
Init == /\ spouse \in {f \in [People -> People \cup {"none"}] :
              \A p \in People : f[p] # p /\ (f[p] # "none" => f[f[p]] = p)}
        /\ group \in SUBSET People /\ left = group /\ total = "0" /\ seen = <<>>
        /\ income \in [People -> {0, 12, 40}] /\ count = [p \in People |-> 0]
Take(S) == /\ total' = RAdd(total, RSumOver([p \in S |-> Tax1(J1, p)], S))
           /\ left' = left \ S /\ count' = [p \in People |-> count[p] + (IF p \in S THEN 1 ELSE 0)]
           /\ seen' = IF Cardinality(S) = 2 THEN Append(seen, S) ELSE seen
Pick(p) == p \in left /\ Take(IF spouse[p] \in left THEN {p, spouse[p]} ELSE {p}) /\ UNCHANGED <<spouse, group, income>>
Next == \E p \in People : Pick(p)
Spec == Init /\ [][Next]_vars
SumOfParts == left = {} => total = RSumOver([p \in group |-> Tax1(J1, p)], group)
OncEach == left = {} => \A p \in People : count[p] = IF p \in group THEN 1 ELSE 0
CouplesOnce == left = {} => /\ {seen[i] : i \in DOMAIN seen} = Couples(group, spouse)
                            /\ Len(seen) = Cardinality(Couples(group, spouse))
\* Combined brackets give the sum of the taxes.
CombinedTax == LET C == Combined(<<J1.tab["2000"], J2.tab["2000"]>>) IN
  \A x \in {"0", "3", "4", "7", "10", "30"} : TaxOn(C, x) = RAdd(TaxOn(J1.tab["2000"], x), TaxOn(J2.tab["2000"], x))
\* A relief is worth its own amount once.
ReliefOnce == \A p \in People : LET f == Facts(p) IN
  /\ Deduction(f) = "3" /\ Credit(f) = "1" /\ Taxable(f) = RAdd(f.gross, "3")
EmitAll == (Emit /\ left = group) => PrintT(<<"GEN", ToJson([spouse |-> spouse, group |-> group, income |-> income])>>)
=============================================================================
