------------------------------ MODULE MCAccount ------------------------------
(* Exhaustive exploration of module Account over small constants.           *)
EXTENDS Account, Json
CONSTANTS Depth, Emit, Full
VARIABLES A, ops
vars == <<A, ops>>
Rates == IF Full THEN {"0", "1", "-1/2", "3"} ELSE {"0", "1", "-1/2"}
Opens == {"0", "4", "-4"}
Npers == IF Full THEN {"1", "2"} ELSE {"1"}
Times == IF Full THEN {"0", "1/2", "1"} ELSE {"0", "1"}
Values == {"2", "-3"}
Year0 == 2000
Init == /\ \E r1, r2 \in Rates, o \in Opens, n \in Npers, g \in {0, 1} :
             A = AInit(Year0, o, (AY(Year0) :> r1 @@ "*" :> r2), n,
                       IF g = 0 THEN <<>> ELSE [balance |-> (AY(Year0 + 1) :> "7")])
        /\ ops = <<>>
Do(o, B) == A' = B /\ ops' = Append(ops, o)
Next == /\ Len(ops) < Depth
        /\ \/ \E t \in Times, v \in Values : Do([op |-> "add", t |-> t, v |-> v], AddTx(A, t, v))
           \/ Do([op |-> "next"], ANext(A))
Spec == Init /\ [][Next]_vars

TimeWeights == { [t \in S |-> IF t = "1" THEN "3" ELSE "1"] : S \in SUBSET Times \ {{}} }
\* The closed form is the step-by-step accrual.
ClosedForm == RClose(BalanceAt(A, "1"),
                     Walk(Open(A), "0", RSortSet(DOMAIN A.tx), A.tx, Rate(A), A.nper))
Identity == RClose(RAdd(Open(A), RAdd(RSum(A.tx), Returns(A))), BalanceAt(A, "1"))
\* Each year opens where the last one closed, unless the user said otherwise.
Chain == \A y \in (A.first + 1)..A.year :
  LET p == AY(y - 1) IN
  IF GivenIn(A, "balance", AY(y)) THEN A.open[AY(y)] = A.given.balance[AY(y)]
  ELSE RClose(A.open[AY(y)], RAdd(A.open[p], RAdd(RSum(A.past[p]), A.ret[p])))
Kinds == {"max_in", "min_in", "max_out", "min_out"}
Lims(k) == IF k \in {"max_in", "min_in"} THEN {"inf", "0", "3"} ELSE {"-inf", "0", "-3"}
Tls(k) == IF k \in {"max_in", "min_in"} THEN {"none", "1"} ELSE {"none", "-1"}
Targets == {"0", "5", "-2"}
Extras == {NoTx, "1" :> "-1"}
\* Every proposal respects the limits, and holds nothing back.
Proposals ==
  \A k \in Kinds, w0 \in TimeWeights, tg \in Targets, x \in Extras :
    LET w == Weights(w0) IN
    \A lim \in Lims(k), tl \in Tls(k) :
       LET p == Spread(ProposedTotal(A, k, w, lim, tl, tg, x), w)
       IN ProposalSafe(A, k, w, lim, tl, tg, x, p) /\ ProposalFull(A, k, w, lim, tl, tg, x, p)
\* The unlimited total reaches the target exactly.
Reaches ==
  \A w0 \in TimeWeights, tg \in Targets, x \in Extras :
    LET w == Weights(w0)
        p == Spread(TotalTo(A, w, tg, x), w)
    IN RClose(BalanceWith(A, Merge(x, p), "1"), tg)
EmitAll == (Emit /\ Len(ops) = Depth) =>
  PrintT(<<"GEN", ToJson([open |-> A.open[AY(Year0)], rates |-> A.rates, nper |-> A.nper,
                           given |-> A.given, ops |-> ops])>>)
=============================================================================
