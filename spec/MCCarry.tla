------------------------------ MODULE MCCarry ------------------------------
(* Every forecast of a few years with small flows, one account and one debt. *)
EXTENDS Carry, FiniteSets, Json, TLC
CONSTANTS Years, Size, Emit
VARIABLES F, W, D, left, hist, past
vars == <<F, W, D, left, hist, past>>
\* Each part's flows in a year: income and expenses from and to the outside;
\* saving into, and withdrawals out of, the account (2) or the debt (3).
Flows(p) == CASE p = 1 -> {"0" :> "4", ("0" :> "2") @@ ("1/2" :> "1")}
              [] p = 2 -> {"1/2" :> "-3"} \cup (IF Size = 0 THEN {} ELSE {"0" :> "-6"})
              [] p = 3 -> {MNone, "1/2" :> "-1"}
              [] p = 4 -> {MNone, "1/2" :> "2"}
              [] p = 5 -> {MNone}
Adjs == {<<>>, <<"2">>, <<"-1">>} \cup (IF Size = 0 THEN {} ELSE {<<"0">>})
Half == <<<<"1/2", "1">>>>
Ends == <<<<"0", "1">>, <<"1", "3">>>>
Schedules == IF Size = 0 THEN {<<Half, Ends>>} ELSE {<<Half, Ends>>, <<Ends, Half>>}
Stores == <<[kind |-> "account", open |-> "8", rate |-> "1/4", nper |-> "1", tx |-> MNone],
            [kind |-> "account", open |-> "-4", rate |-> "1/2", nper |-> "1", tx |-> MNone]>>
NObj == 3
Init == /\ \E s \in Schedules :
             F = [year |-> 2000, phase |-> 0, cash |-> MNone, objs |-> [k \in 1..NObj |-> 2000], adj |-> <<>>,
                  refund |-> s[1], payment |-> s[2]]
        /\ W = Stores /\ D = [flows |-> <<>>, adjs |-> <<>>, into |-> <<>>] /\ left = "0" /\ hist = <<>>
        /\ past = <<>>
Into(p) == IF p = 3 THEN {1, 2} ELSE {1}
DoCall == \E p \in 1..5 : MayCall(F, p) /\ \E f \in Flows(p) :
  /\ F' = DoPart(F, p, f)
  /\ \E k \in Into(p) :
       /\ W' = IF p \in {3, 4} THEN [W EXCEPT ![k].tx = Merge(@, [t \in DOMAIN f |-> RNeg(f[t])])] ELSE W
       /\ D' = [D EXCEPT !.flows = Append(@, f), !.into = Append(@, k)]
  /\ UNCHANGED <<left, past>> /\ hist' = Append(hist, <<"call", p>>)
\* The tax authority says what is owed once the year's figures are known.
DoAdvance == \E k \in 1..NObj : MayAdvance(F, k)
  /\ F' = Advance(F, k)
  /\ (\A j \in 1..k - 1 : F.objs[j] > F.year) \* (the order does not matter)
  /\ UNCHANGED <<W, D, left, past>> /\ hist' = Append(hist, <<"next", k>>)
Close(S) == StoreBalance(S, "1")
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN "0" ELSE RAdd(Head(s), Sum(Tail(s)))
DoStart == MayStart(F) /\ \E a \in Adjs :
  LET G == [F EXCEPT !.adj = a]
      n == Len(D.flows)
      Y == [open |-> RAdd(W[1].open, W[2].open), close |-> RAdd(Close(W[1]), Close(W[2])),
            cash0 |-> left, cash1 |-> Total(Start(G).cash),
            returns |-> RSub(RAdd(Close(W[1]), Close(W[2])), RSum([k \in 1..2 |-> RAdd(W[k].open, RSum(W[k].tx))])),
            outside |-> RAdd(Total(D.flows[n - 4]), Total(D.flows[n - 3])),
            adj |-> IF a = <<>> THEN "0" ELSE a[1]]
  IN /\ F' = Start(G) /\ past' = Append(past, Y) /\ left' = Total(Start(G).cash)
     /\ W' = [k \in 1..2 |-> [W[k] EXCEPT !.open = Close(W[k]), !.tx = MNone]]
     /\ D' = [D EXCEPT !.adjs = Append(@, a)] /\ hist' = Append(hist, <<"year">>)
Over == F.year = 2000 + Years - 1 /\ F.phase = 5
Next == ~Over /\ (DoCall \/ DoAdvance \/ DoStart)
Spec == Init /\ [][Next]_vars
\* At every call all objects are in the same year, and each year has each part once.
TogetherAtCalls == (F.phase < 5) => InStep(F)
Ordered == \A i \in DOMAIN hist : hist[i][1] = "call" =>
   IF i = 1 THEN hist[i][2] = 1
   ELSE (hist[i - 1][1] = "call" /\ hist[i][2] = hist[i - 1][2] + 1) \/ (hist[i - 1][1] = "year" /\ hist[i][2] = 1)
\* Each object is advanced exactly once a year.
OncePerYear == \A k \in 1..NObj : Cardinality({i \in DOMAIN hist : hist[i] = <<"next", k>>}) = F.objs[k] - 2000
NothingLost == \A i \in DOMAIN past : Reconciles(past[i], "1")
\* Cash is all the flows and adjustments so far.
CashIs == REq(Total(F.cash), RAdd(Sum([i \in DOMAIN D.flows |-> Total(D.flows[i])]),
                                  Sum([i \in DOMAIN D.adjs |-> IF D.adjs[i] = <<>> THEN "0" ELSE D.adjs[i][1]])))
EmitAll == (Emit /\ Over) => PrintT(<<"GEN", ToJson([flows |-> D.flows, adjs |-> D.adjs, refund |-> F.refund, payment |-> F.payment])>>)
=============================================================================
