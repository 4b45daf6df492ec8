----------------------------- MODULE MCCostBase -----------------------------
EXTENDS CostBase, Json
CONSTANTS Depth, Emit, NumYears
VARIABLES S, ops, start, gained, returned
vars == <<S, ops, start, gained, returned>>
Times == {"0", "1/2", "1"}
Init == /\ \E acb \in {"16", "4", "24"}, r \in {"1", "-1/2", "0"} :
             S = [A |-> AInit(2000, "16", ("*" :> r), "2", <<>>), acb |-> acb, acbs |-> <<>>, gains |-> <<>>]
        /\ ops = <<>> /\ start = RSub("16", S.acb) /\ gained = "0" /\ returned = "0"
\* The account never runs dry before the end of the year.
Sound(A) == \A t \in Times : RPos(BalanceAt(A, t)) \/ (t = "1" /\ RZero(BalanceAt(A, t)))
Put(t, v) == LET A == AddTx(S.A, t, v) IN
  /\ S.A.tx = <<>> \/ t \notin DOMAIN S.A.tx
  /\ Sound(A) /\ S' = [S EXCEPT !.A = A] /\ ops' = Append(ops, [op |-> "add", t |-> t, v |-> v])
  /\ UNCHANGED <<start, gained, returned>>
Empty == Put("1", RNeg(BalanceAt(S.A, "1")))
Go == /\ S.A.year < 2000 + NumYears /\ RPos(BalanceAt(S.A, "1"))
      /\ S' = SNext(S) /\ ops' = Append(ops, [op |-> "next", t |-> "0", v |-> "0"])
      /\ gained' = RAdd(gained, Closing(S).gain) /\ returned' = RAdd(returned, Returns(S.A)) /\ UNCHANGED start
Next == Len(ops) < Depth /\ ((\E t \in Times, v \in {"4", "-4", "-10"} : Put(t, v)) \/ Empty \/ Go)
Spec == Init /\ [][Next]_vars
\* What is not yet realised is what the account is worth beyond its cost:
\* gains are taxed once each, sooner or later.
Unrealised == RSub(BalanceAt(S.A, "1"), Closing(S).acb)
Reconciles == REq(RAdd(Unrealised, RAdd(gained, Closing(S).gain)), RAdd(start, RAdd(returned, Returns(S.A))))
NotNegative == RLe("0", Closing(S).acb)
\* No gain without growth: when cost and value agree and nothing grows.
NoGain == (REq(S.acb, Open(S.A)) /\ RZero(Rate(S.A))) => RZero(Closing(S).gain)
Liquidated == RZero(BalanceAt(S.A, "1")) => RZero(Closing(S).acb)
EmitAll == (Emit /\ Len(ops) = Depth) => PrintT(<<"GEN", ToJson([ops |-> ops, acb |-> RSub("16", start), rate |-> S.A.rates["*"]])>>)
=============================================================================
