------------------------------ MODULE MCExtend ------------------------------
(* All tables over a few years and price indices; every queried year.        *)
EXTENDS Extend, Json, TLC
CONSTANTS First, Last, Prices, Vals, Emit
Years == First..Last
VARIABLES tab, idx, y
vars == <<tab, idx, y>>
Init == /\ tab \in UNION {[T -> Vals] : T \in (SUBSET Years) \ {{}}}
        /\ idx \in [Years -> Prices]
        /\ y = First
Next == y < Last /\ y' = y + 1 /\ UNCHANGED <<tab, idx>>
Spec == Init /\ [][Next]_vars
F(t, b) == RDiv(RInt(idx[t]), RInt(idx[b]))
Tab(k) == [k |-> "num", v |-> RInt(tab[k])]
Fig(z) == Figure(Tab, DOMAIN tab, F, z).v
Listed == y \in DOMAIN tab => Fig(y) = RInt(tab[y])
\* The source is listed, nothing listed lies strictly between it and y, and a
\* later one is used only when there is no earlier one.
Source == LET b == Nearest(DOMAIN tab, y) IN
  /\ b \in DOMAIN tab
  /\ b > y => \A k \in DOMAIN tab : k > y
  /\ ~\E k \in DOMAIN tab : (b < k /\ k <= y) \/ (y <= k /\ k < b)
\* Real value is kept from the source on.
Real == LET b == Nearest(DOMAIN tab, y) IN RDiv(Fig(y), RInt(idx[y])) = RDiv(RInt(tab[b]), RInt(idx[b]))
\* Without price changes the figure is one that was listed.
Flat == (\A a, b \in Years : idx[a] = idx[b]) => \E k \in DOMAIN tab : Fig(y) = RInt(tab[k])
\* A table that is itself fully indexed extends to itself.
Complete == LET g == [z \in Years |-> Fig(z)]
                Tab2(k) == [k |-> "num", v |-> g[k]]
            IN Figure(Tab2, Years, F, y).v = g[y]
EmitAll == (Emit /\ y = First) => PrintT(<<"GEN", ToJson([tab |-> [k \in {RInt(z) : z \in DOMAIN tab} |-> tab[CHOOSE z \in DOMAIN tab : RInt(z) = k]],
                                                        idx |-> [i \in 1..(Last - First + 1) |-> idx[First + i - 1]]])>>)
=============================================================================
