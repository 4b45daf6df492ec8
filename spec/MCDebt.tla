------------------------------- MODULE MCDebt -------------------------------
(* Debts (C04): pay any proposed schedule, or anything else, year by year.  *)
EXTENDS Account, Json
CONSTANTS Depth, Emit, Rates, Opens
VARIABLES A, lims, ops
vars == <<A, lims, ops>>
W == Weights("1/2" :> "1")
Lim(k) == CASE k = "min_in" -> lims.minpay [] k = "max_in" -> RAdd(lims.minpay, lims.accel) [] OTHER -> "0"
Offer(k, w) == Spread(ProposedTotal(A, k, w, Lim(k), "none", "0", NoTx), w)
Init == /\ \E r \in Rates, o \in Opens : A = AInit(2000, RNeg(RAbs(o)), "*" :> r, "1", <<>>)
        /\ \E m \in {"0", "3", "100"}, a \in {"inf", "0", "2"} : lims = [minpay |-> m, accel |-> a]
        /\ ops = <<>>
Do(o, B) == A' = B /\ ops' = Append(ops, o) /\ UNCHANGED lims
Next == /\ Len(ops) < Depth
        /\ \/ \E t \in {"0", "1"}, v \in {"2", "-1"} : Do([op |-> "add", t |-> t, v |-> v], AddTx(A, t, v))
           \/ \E f \in {"1", "1/2"} :   \* pay what is offered, or half of it
                LET p == Offer("max_in", W) IN
                Do([op |-> "add", t |-> "1/2", v |-> RMul(f, p["1/2"])], AddTx(A, "1/2", RMul(f, p["1/2"])))
           \/ Do([op |-> "next"], ANext(A))
Spec == Init /\ [][Next]_vars
Ws == { W, Weights("0" :> "1" @@ "1" :> "3"), Weights("1" :> "1") }
NotOverpaid == \A w \in Ws, k \in {"max_in", "min_in"} :
   RLeC(BalanceWith(A, Offer(k, w), "1"), RMax("0", BalanceAt(A, "1")))
NeverSource == \A w \in Ws, k \in {"max_out", "min_out"} : \A t \in DOMAIN w : RZero(Offer(k, w)[t])
Capped == \A w \in Ws : RLeC(RAdd(RSum(Offer("max_in", w)), Inflow(A.tx)),
                             RMax(Lim("max_in"), Inflow(A.tx)))
MinimumMet == \A w \in Ws, k \in {"max_in", "min_in"} :
   \/ RLeC(lims.minpay, RAdd(RSum(Offer(k, w)), Inflow(A.tx)))
   \/ RLeC("0", BalanceWith(A, Offer(k, w), "1"))
MinWithinMax == \A w \in Ws : \A t \in DOMAIN w : RLeC(Offer("min_in", w)[t], Offer("max_in", w)[t])
\* Paying at most what is offered keeps a debt a debt, whatever came before.
StaysDebt == [][(Len(ops') > Len(ops) /\ ops'[Len(ops')].op = "add" /\ ops'[Len(ops')].t = "1/2")
                => RLeC(BalanceAt(A', "1"), RMax("0", BalanceAt(A, "1")))]_vars
EmitAll == (Emit /\ Len(ops) = Depth) =>
  PrintT(<<"GEN", ToJson([open |-> A.open["2000"], rates |-> A.rates, lims |-> lims, ops |-> ops])>>)
=============================================================================
