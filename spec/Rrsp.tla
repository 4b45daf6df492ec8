-------------------------------- MODULE Rrsp --------------------------------
(***************************************************************************)
(* A retirement savings plan and its conversion to an income fund (C07).   *)
(* State Q: A (the account, module Account), born (the owner's year of     *)
(* birth), conv ("auto" or the chosen year of conversion), shared (how much*)
(* is to be withdrawn a year by agreement, as against by law), bornc (the  *)
(* contributor's year of birth).                                           *)
(* Law K: last (age), least (age -> fraction), wh (year -> brackets).      *)
(***************************************************************************)
EXTENDS Account, Tax
AgeIn(Q, y) == y - Q.born
Mandatory(Q, K) == Q.A.first + RToInt(K.last) - AgeIn(Q, Q.A.first)
ConvYear(Q, K) == IF Q.conv = "auto" THEN Mandatory(Q, K) ELSE RToInt(Q.conv)
MayConvert(Q, K, y) == y <= Mandatory(Q, K)
Convert(Q, y) == [Q EXCEPT !.conv = RInt(y)]
\* No contributions in the years after the contributor's mandatory age (the
\* room of the first year is as given).
Closed(Q, K, y) == y > Q.A.first /\ y - Q.bornc > RToInt(K.last)
NextRoom(Q, K, room, accrual) ==
  IF Closed(Q, K, Q.A.year + 1) THEN "0" ELSE RAdd(RSub(room, Inflow(Q.A.tx)), accrual)
\* The fraction of the opening balance to be withdrawn at an age.
Fraction(K, age) ==
  LET Ages == YearsOf(K.least) IN
  IF age \in Ages THEN K.least[RInt(age)]
  ELSE IF \A a \in Ages : a < age THEN RMaxSet({K.least[k] : k \in DOMAIN K.least})
  ELSE RDiv("1", RInt(90 - age))
Least(Q, K) == IF ConvYear(Q, K) < Q.A.year THEN RMul(Fraction(K, AgeIn(Q, Q.A.year)), Open(Q.A)) ELSE "0"
\* A minimum shared with other plans may ask for more than the law does.
Asked(Q, K) == RMax(Least(Q, K), Q.shared)
Taxable(Q) == RNeg(Outflow(Q.A.tx))
Deductible(Q) == Inflow(Q.A.tx)
\* Tax is withheld on all withdrawals, or those beyond the minimum once
\* converted, at the rate of the bracket that the sum falls in.
Withholdable(Q, K) == IF ConvYear(Q, K) > Q.A.year THEN Taxable(Q) ELSE RMax("0", RSub(Taxable(Q), Least(Q, K)))
\* The rates possible (two where rounding could make either of two brackets).
WithheldRates(Q, K, F(_, _)) ==
  LET x == Withholdable(Q, K)  b == From(K.wh, Q.A.year)  B == K.wh[RInt(b)]
      d == RMul(x, F(b, Q.A.year))
  IN IF F(b, Q.A.year) = "1" /\ RZero(Least(Q, K)) THEN {B[MarginalBracket(B, d)]}
     ELSE {B[MarginalBracket(B, z)] : z \in {d, RMul(d, "999999999/1000000000"), RMul(d, "1000000001/1000000000")}}
Withheld(Q, K, F(_, _)) == {RMul(Withholdable(Q, K), r) : r \in WithheldRates(Q, K, F)}
\* What is proposed as this year's withdrawals.
MustWithdraw(Q, K, w) == ProposedTotal(Q.A, "min_out", w, RNeg(Asked(Q, K)), "none", "0", NoTx)
=============================================================================
