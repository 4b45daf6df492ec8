------------------------------- MODULE MCTax -------------------------------
(* A tax object that remembers the brackets it has worked out, asked about   *)
(* years in every order.                                                     *)
EXTENDS Tax, Json, TLC
CONSTANTS First, Last, Incomes, Emit
VARIABLES given, price, known, log
vars == <<given, price, known, log>>
Years == First..Last
BracketSets == { [x \in {"0", "10"} |-> IF x = "0" THEN "1/10" ELSE "1/2"],
                 [x \in {"0", "5", "20"} |-> IF x = "0" THEN "0" ELSE IF x = "5" THEN "1/4" ELSE "1/3"],
                 [x \in {"2"} |-> "1/5"] }
F(t, b) == RDiv(RInt(price[t]), RInt(price[b]))
Init == /\ \E T \in {S \in SUBSET Years : Cardinality(S) \in 1..2} : given \in [{RInt(y) : y \in T} -> BracketSets]
        /\ price \in [Years -> {1, 2, 3}]
        /\ known = given /\ log = <<>>
\* The first question about a year is answered from the nearest year worked
\* out so far, and remembered.
Ask(y) == /\ y \notin {log[i] : i \in DOMAIN log}
          /\ log' = Append(log, y)
          /\ known' = (RInt(y) :> Brackets(known, F, y)) @@ known
          /\ UNCHANGED <<given, price>>
Next == \E y \in Years : Ask(y)
Spec == Init /\ [][Next]_vars
\* The answer for a year does not depend on the questions before.
OrderFree == \A k \in DOMAIN known : known[k] = Brackets(given, F, RToInt(k))
Now == IF log = <<>> THEN First ELSE log[Len(log)]
B == Brackets(given, F, Now)
X == {RInt(i) : i \in Incomes}
ZeroAtZero == TaxOn(B, "0") = "0"
NeverNegative == \A x \in X : RLe("0", TaxOn(B, x))
Increasing == \A x, z \in X : RLe(x, z) => RLe(TaxOn(B, x), TaxOn(B, z))
\* The marginal rate is the slope below x.
Marginal == \A x \in X : LET b == MarginalBracket(B, x) IN
  RLe(b, x) => TaxOn(B, x) = RAdd(TaxOn(B, b), RMul(B[b], RSub(x, b)))
\* The real burden on a real income is the same as in the source year.
RealBurden == LET b == From(given, Now)  G == given[RInt(b)]  f == F(Now, b) IN
  \A x \in X : TaxOn(B, RMul(x, f)) = RMul(f, TaxOn(G, x))
Credits == \A x \in X : /\ RLe(Owing(B, x, "3", "1", "1/2"), TaxOn(B, x))
                        /\ RLe("0", Owing(B, x, "3", "1", "1/2"))
EmitAll == (Emit /\ Len(log) = Last - First + 1) =>
  PrintT(<<"GEN", ToJson([given |-> given, price |-> [k \in {RInt(y) : y \in Years} |-> RInt(price[RToInt(k)])], log |-> log])>>)
=============================================================================
