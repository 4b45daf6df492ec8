------------------------------ MODULE MCAlloc ------------------------------
(* Every tree of a family of shapes, with every assignment of limits, weights *)
(* and groups to its accounts and nodes; the two steps of Alloc are taken one *)
(* after the other, and what C13 and C14 state is checked of the outcome.     *)
EXTENDS Alloc, Json
CONSTANTS Emit, Size
VARIABLES Q, ph, mins, fin
vars == <<Q, ph, mins, fin>>
L(x) == [k |-> "leaf", leaf |-> x, kids |-> <<>>, ws |-> <<>>, mn |-> "inf", mx |-> "inf"]
O(ks) == [k |-> "ord", leaf |-> 0, kids |-> ks, ws |-> <<>>, mn |-> "inf", mx |-> "inf"]
W(ks, ws) == [k |-> "wt", leaf |-> 0, kids |-> ks, ws |-> ws, mn |-> "inf", mx |-> "inf"]
W2 == {<<"1", "1">>, <<"1", "3">>, <<"2", "0">>}
W3 == {<<"1", "1", "2">>, <<"3", "0", "1">>}
Shapes ==
  {<<O(<<2, 3, 4>>), L(1), L(2), L(3)>>}
  \cup {<<W(<<2, 3, 4>>, w), L(1), L(2), L(3)>> : w \in W3}
  \cup {<<O(<<2, 3>>), W(<<4, 5>>, w), L(3), L(1), L(2)>> : w \in W2}
  \cup {<<O(<<2, 3>>), L(3), W(<<4, 5>>, w), L(1), L(2)>> : w \in W2}
  \cup {<<W(<<2, 3>>, w), O(<<4, 5>>), L(3), L(1), L(2)>> : w \in W2}
  \cup {<<W(<<2, 3>>, w), W(<<4, 5>>, v), L(3), L(1), L(2)>> : w \in W2, v \in W2}
  \cup {<<O(<<2, 3>>), O(<<4, 5>>), L(3), L(1), L(2)>>}
  \cup {<<L(1)>>, <<O(<<>>)>>, <<W(<<2>>, <<"1">>), L(1)>>, <<O(<<2, 3>>), O(<<>>), L(1)>>}
Opt == CASE Size = 2 -> {<<"0", "2">>, <<"0", "5">>, <<"1", "3">>, <<"2", "inf">>}
         [] Size = 1 -> {<<"0", "2">>, <<"1", "5">>, <<"2", "inf">>}
         [] Size = 0 -> {<<"1", "5">>, <<"2", "3">>}
Lims == IF Size = 2 THEN {<<"inf", "inf">>, <<"inf", "3">>, <<"1", "inf">>, <<"0", "4">>} ELSE {<<"inf", "inf">>, <<"1", "3">>}
\* Which accounts share a limit, and how much it is.
Groups == {<<{}, "0">>, <<{1, 2}, "3">>, <<{1, 2}, "5">>}
Totals == CASE Size = 2 -> {"1", "4", "7", "20"} [] Size = 1 -> {"2", "6", "20"} [] Size = 0 -> {"2", "6", "10"}
Init ==
  /\ \E T0 \in Shapes, o1 \in Opt, o2 \in Opt, o3 \in Opt, tot \in Totals, out \in BOOLEAN, g \in Groups :
     \E at \in {1} \cup (IF Len(T0) > 1 THEN {2} ELSE {}), l \in Lims :
       LET T == [T0 EXCEPT ![at].mn = l[1], ![at].mx = l[2]]
           o == <<o1, o2, o3>>
           in == [x \in 1..3 |-> x \in g[1]]
           lo == [x \in 1..3 |-> IF in[x] THEN "0" ELSE o[x][1]]
           hi == [x \in 1..3 |-> IF in[x] THEN RMin(o[x][2], g[2]) ELSE o[x][2]]
           mx == [x \in 1..3 |-> IF in[x] THEN 1 ELSE 0]
       IN /\ Q = [T |-> T, lo |-> lo, hi |-> hi, gmin |-> <<0, 0, 0>>, gmax |-> mx, Gmin |-> <<"0">>, Gmax |-> <<g[2]>>,
                  total |-> tot, out |-> out]
          /\ g[1] # {} => /\ RLe(g[2], RMax(hi[1], hi[2]))
                          \* shared limits are not given to accounts of weight zero
                          /\ \A n \in Ids(T) : T[n].k = "wt" => \A i \in DOMAIN T[n].kids :
                               GroupOf(T, [grp |-> mx], T[n].kids[i]) # 0 => RPos(T[n].ws[i])
          /\ Separable(Q)
  /\ ph = 0 /\ mins = Zero(Q) /\ fin = Zero(Q)
TakeMin == ph = 0 /\ ph' = 1 /\ mins' = AllocMin(Q) /\ fin' = mins' /\ UNCHANGED Q
TakeMax == ph = 1 /\ ph' = 2 /\ fin' = AllocMax(Q, mins) /\ UNCHANGED <<Q, mins>>
Next == TakeMin \/ TakeMax
Spec == Init /\ [][Next]_vars
Total == WithinTotal(Q, fin)
Limits == WithinOwn(Q, fin) /\ WithinGroup(Q, fin) /\ WithinNode(Q, fin) /\ OnlyTree(Q, fin)
Done == ph = 2
Uses == Done => UsesAll(Q, fin)
Mins == Done => MinsFirst(Q, fin)
Order == Done => OrderKept(Q, mins, fin)
Weight == Done => WeightKept(Q, mins, fin)
\* The same money whichever way the kids of a weighted node are listed.
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Turned(T) == [n \in Ids(T) |-> IF T[n].k = "wt" THEN [T[n] EXCEPT !.kids = Rev(@), !.ws = Rev(@)] ELSE T[n]]
Same(f, g) == \A x \in DOMAIN f : Le(f[x], g[x]) /\ Le(g[x], f[x])
Symmetric == Done => Same(Ideal([Q EXCEPT !.T = Turned(Q.T)]), fin)
\* More money never takes any from an account (nodes unlimited).
Grows == (Done /\ NoNodeLimits(Q)) => LET g == Ideal([Q EXCEPT !.total = RAdd(@, "1")]) IN \A x \in Accts(Q) : Le(fin[x], g[x])
EmitAll == (Emit /\ Done) => PrintT(<<"GEN", ToJson([Q |-> Q])>>)
=============================================================================
