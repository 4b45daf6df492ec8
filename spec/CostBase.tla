------------------------------ MODULE CostBase ------------------------------
(***************************************************************************)
(* Adjusted cost base and capital gains of a taxable account (C08).        *)
(* State S: A (the account, module Account), acb (at the start of the      *)
(* year), acbs (user-supplied: year -> acb), gains (user-supplied gains).  *)
(***************************************************************************)
EXTENDS Account, Sequences
\* One transaction: a deposit adds its value; a withdrawal gives up the same
\* fraction of the cost base as of the balance.
After(c, v, before) ==
  IF ~RIsNeg(v) THEN [acb |-> RAdd(c.acb, v), gain |-> c.gain]
  ELSE LET share == RDiv(RNeg(v), before)  cost == RMul(c.acb, share)
       IN [acb |-> RSub(c.acb, cost), gain |-> RAdd(c.gain, RSub(RNeg(v), cost))]
RECURSIVE Through(_, _, _)
Through(A, c, times) ==
  IF times = <<>> THEN c
  ELSE LET t == Head(times) IN
       Through(A, After(c, A.tx[t], BalanceBefore(Open(A), A.tx, Rate(A), A.nper, t)), Tail(times))
Closing(S) == Through(S.A, [acb |-> S.acb, gain |-> "0"], RSortSet(DOMAIN S.A.tx))
Gain(S) == IF AHas(S.gains, AY(S.A.year)) THEN S.gains[AY(S.A.year)] ELSE Closing(S).gain
TaxableGain(S) == RDiv(Gain(S), "2")
SetAcb(S, v) == IF AHas(S.acbs, AY(S.A.year)) THEN S ELSE [S EXCEPT !.acb = v]
SNext(S) == LET z == AY(S.A.year + 1) IN
  [S EXCEPT !.A = ANext(@), !.acb = IF AHas(S.acbs, z) THEN S.acbs[z] ELSE Closing(S).acb]
=============================================================================
