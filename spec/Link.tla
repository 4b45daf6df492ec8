-------------------------------- MODULE Link --------------------------------
(***************************************************************************)
(* Accounts that share limits (C05).                                       *)
(*                                                                         *)
(* State G: acc: name -> account state (module Account); slot: name ->     *)
(* direction -> key or "none", a key being owner and token; data: key ->   *)
(* the shared limit ("none" until given); group: key -> set of names.      *)
(* Directions: max_in, min_in, max_out, min_out.                           *)
(***************************************************************************)
EXTENDS Account, FiniteSets

Dirs == {"max_in", "min_in", "max_out", "min_out"}
NoLimit(d) == CASE d = "max_in" -> "inf" [] d = "max_out" -> "-inf" [] OTHER -> "0"
GInit == [acc |-> <<>>, slot |-> <<>>, data |-> <<>>, group |-> <<>>]
Members(G, k) == IF AHas(G.group, k) THEN G.group[k] ELSE {}
Datum(G, k) == IF AHas(G.data, k) THEN G.data[k] ELSE "none"
\* A new account joins the group of each of its links; a limit given with a
\* link replaces the shared one.
GNew(G, a, A, links, lims) ==
  LET keys == {links[d] : d \in {x \in Dirs : links[x] /= "none"}}
      given(k) == {d \in Dirs : links[d] = k /\ lims[d] /= "none"}
  IN [acc |-> APut(G.acc, a, A),
      slot |-> APut(G.slot, a, links),
      data |-> [k \in DOMAIN G.data \cup keys |->
                  IF k \in keys /\ given(k) /= {} THEN lims[CHOOSE d \in given(k) : TRUE]
                  ELSE Datum(G, k)],
      group |-> [k \in DOMAIN G.group \cup keys |->
                  Members(G, k) \cup (IF k \in keys THEN {a} ELSE {})]]
GLimit(G, a, d) == IF G.slot[a][d] = "none" THEN NoLimit(d) ELSE Datum(G, G.slot[a][d])
GSetLimit(G, a, d, v) == IF G.slot[a][d] = "none" THEN G
                         ELSE [G EXCEPT !.data = APut(@, G.slot[a][d], v)]
GJoin(G, k, a)  == [G EXCEPT !.group = APut(@, k, Members(G, k) \cup {a})]
GLeave(G, k, a) == [G EXCEPT !.group = APut(@, k, Members(G, k) \ {a})]
\* The record of a group is dropped and a new one begun: it has no members
\* and no limit.
GRenew(G, k) == [G EXCEPT !.group = APut(@, k, {}), !.data = APut(@, k, "none")]
GData(G, k, v)  == [G EXCEPT !.data = APut(@, k, v)]
GAdd(G, a, t, v) == [G EXCEPT !.acc[a] = AddTx(@, t, v)]
GNext(G, a) == [G EXCEPT !.acc[a] = ANext(@)]

Flow(d, f) == IF d \in {"max_in", "min_in"} THEN Inflow(f) ELSE Outflow(f)
Hyp(x, a) == IF AHas(x, a) THEN x[a] ELSE NoTx
\* What the others in a's group have used, x being hypothetical flows.
UsedByOthers(G, a, d, x) ==
  IF G.slot[a][d] = "none" THEN "0"
  ELSE LET S == Members(G, G.slot[a][d]) \ {a}
       IN RSumOver([b \in S |-> RAdd(Flow(d, G.acc[b].tx), Flow(d, Hyp(x, b)))], S)
\* What is offered for account a: its own hypothetical flows are own[1] if
\* given (own = <<f>>), else its share of the group's.
GOffer(G, a, d, w, tl, target, own, x) ==
  LET lim == RSub(GLimit(G, a, d), UsedByOthers(G, a, d, x))
      extra == IF own = <<>> THEN Hyp(x, a) ELSE own[1]
  IN Spread(ProposedTotal(G.acc[a], d, w, lim, tl, target, extra), w)
\* All that a group has used in a direction.
Used(G, k, d) ==
  LET S == Members(G, k) IN RSumOver([b \in S |-> Flow(d, G.acc[b].tx)], S)
=============================================================================
