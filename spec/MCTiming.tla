------------------------------ MODULE MCTiming ------------------------------
(* All cash flows over a few times.                                          *)
EXTENDS Timing, Json, Integers
CONSTANTS Times, Big, Emit
VARIABLES f
Init == f \in UNION { [S -> {RInt(i) : i \in (-Big)..Big}] : S \in SUBSET Times }
Next == UNCHANGED f
Spec == Init /\ [][Next]_f
Good == GoodTiming(f, FromFlows(f))
Frequencies == \A n \in 1..13, w \in {"0", "1/2", "1", "1/3"} :
  LET p == Periodic(w, n) IN
  /\ Cardinality(DOMAIN p) = n /\ RSum(p) = "1"
  /\ \A t \in DOMAIN p : RLe("0", t) /\ RLe(t, "1")
  /\ \A k \in 0..(n - 1) : Cardinality({t \in DOMAIN p : RLe(RDiv(RInt(k), RInt(n)), t) /\ RLe(t, RDiv(RInt(k + 1), RInt(n)))}) >= 1
Scalars == (DOMAIN f /= {} /\ \E t \in DOMAIN f : ~RZero(f[t])) =>
  LET w == FromFlows(f) IN w = <<>> \/ DOMAIN w = {} \/
     (/\ RSum(Part(w, DOMAIN w)) = "1"
      /\ RSum(Series(w, DOMAIN w, "7")) = "7"
      /\ Proportional(Series(w, DOMAIN w, "7"), w, DOMAIN w))
EmitAll == Emit => PrintT(<<"GEN", ToJson([f |-> f])>>)
=============================================================================
