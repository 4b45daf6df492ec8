------------------------------- MODULE MCLink -------------------------------
(* Groups of accounts that take what they are offered, in any order.        *)
EXTENDS Link, Json
CONSTANTS Depth, Emit, Names
VARIABLES G, ops, setup
vars == <<G, ops, setup>>
Keys == {"p:x", "p:y"}
Links(ki, ko) == [max_in |-> ki, min_in |-> "none", max_out |-> ko, min_out |-> "none"]
KeyIn == {"none", "p:x", "q:x"}
KeyOut == {"none", "p:y"}
Lims(a) == [max_in |-> "none", min_in |-> "none", max_out |-> "none", min_out |-> "none"]
New(a) == AInit(2000, "10", "*" :> "0", "1", <<>>)
RECURSIVE Build(_, _, _)
Build(G0, S, sl) == IF S = {} THEN G0
  ELSE LET a == CHOOSE a \in S : TRUE IN Build(GNew(G0, a, New(a), sl[a], Lims(a)), S \ {a}, sl)
WithData(g) == [g EXCEPT !.data = [k \in DOMAIN g.data |-> IF k = "p:y" THEN "-4" ELSE "5"]]
Init == /\ \E sl \in [Names -> {Links(i, o) : i \in KeyIn, o \in KeyOut}] :
             /\ setup = sl
             /\ G = WithData(Build(GInit, Names, sl))
        /\ ops = <<>>
W == "1" :> "1"
Do(o, H) == G' = H /\ ops' = Append(ops, o) /\ UNCHANGED setup
Next == /\ Len(ops) < Depth
        /\ \E a \in Names :
           \/ \E d \in {"max_in", "max_out"} :
                LET p == GOffer(G, a, d, W, IF d = "max_in" THEN "3" ELSE "-3", IF d = "max_in" THEN "inf" ELSE "0", <<>>, <<>>)
                IN Do([op |-> "take", a |-> a, d |-> d, t |-> "1", v |-> p["1"]], GAdd(G, a, "1", p["1"]))
           \/ /\ G.slot[a]["max_in"] /= "none"
              /\ Do([op |-> "setlimit", a |-> a, d |-> "max_in", v |-> "7"], GSetLimit(G, a, "max_in", "7"))
           \/ /\ Do([op |-> "next", a |-> a], GNext(G, a))
Spec == Init /\ [][Next]_vars
\* Netting within one time slot is not a flow: these accounts flow one way.
OneWay(k, d) == \A a \in Members(G, k) : \A o \in DOMAIN ops : ops[o].op = "take" /\ ops[o].a = a => ops[o].d = d
Bounded == \A k \in DOMAIN G.data :
  /\ (k /= "p:y" /\ OneWay(k, "max_in")) => RLeC(Used(G, k, "max_in"), G.data[k])
  /\ (k = "p:y" /\ OneWay(k, "max_out")) => RLeC(G.data[k], Used(G, k, "max_out"))
\* No member is offered what another has used; other groups are not affected.
Shared == \A a, b \in Names : \A d \in {"max_in", "max_out"} :
  (G.slot[a][d] /= "none" /\ G.slot[a][d] = G.slot[b][d]) => GLimit(G, a, d) = GLimit(G, b, d)
OthersUnchanged == [][\A k \in DOMAIN G.data : G'.data[k] /= G.data[k] =>
     \E a \in Members(G, k) : ops'[Len(ops')].a = a]_vars
EmitAll == (Emit /\ Len(ops) = Depth) => PrintT(<<"GEN", ToJson([slot |-> setup, ops |-> ops])>>)
=============================================================================
