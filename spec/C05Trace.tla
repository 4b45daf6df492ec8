------------------------------ MODULE C05Trace ------------------------------
(* Traces of real linked accounts against module Link.                      *)
EXTENDS TraceBase, Link
Init0(s) == GInit
R(g, bad) == [st |-> g, bad |-> bad]
SameSched(f, g, m) == DOMAIN f = DOMAIN g /\ \A t \in DOMAIN f : RCloseS(f[t], g[t], m)
AsSet(s) == {s[i] : i \in DOMAIN s}
DefaultW == "1/2" :> "1"
OfferBad(G, e) ==
  LET w == Weights(IF e.w = <<>> THEN DefaultW ELSE e.w)
      tg == IF e.bl /= "none" THEN e.bl ELSE IF e.d \in {"max_in", "min_in"} THEN "inf" ELSE "0"
      own == IF e.hasown THEN <<e.own>> ELSE <<>>
      extra == IF e.hasown THEN e.own ELSE Hyp(e.group, e.a)
      want == GOffer(G, e.a, e.d, w, e.tl, tg, own, e.group)
      lim == RSub(GLimit(G, e.a, e.d), UsedByOthers(G, e.a, e.d, e.group))
      m == Mag(G.acc[e.a], extra)
      used == RAdd(Flow(e.d, G.acc[e.a].tx), Flow(e.d, extra))
  IN IF e.err /= "ok" THEN {"offer-error"}
     ELSE Clause("offer-value", SameSched(e.out, want, m))
          \cup Clause("offer-within-shared-limit",
                 IF e.d \in {"max_in", "min_in"}
                 THEN RLeS(RAdd(RSum(e.out), used), RMax(lim, used), m)
                 ELSE RLeS(RMin(lim, used), RAdd(RSum(e.out), used), m))
Step(G, e) ==
  CASE e.ev = "new" ->
         R(GNew(G, e.a, AInit(2000, e.open, "*" :> e.rate, "1", <<>>), e.links, e.lims), Clause("new-accepted", e.err = "ok"))
    [] e.ev = "limit" -> R(G, Clause("shared-limit", e.out = GLimit(G, e.a, e.d)
                                        \/ (e.out /= "none" /\ GLimit(G, e.a, e.d) /= "none" /\ RClose(e.out, GLimit(G, e.a, e.d)))))
    [] e.ev = "setlimit" -> R(GSetLimit(G, e.a, e.d, e.v),
          Clause("set-limit", e.err = (IF G.slot[e.a][e.d] = "none" THEN "EXC:AttributeError" ELSE "ok")))
    [] e.ev = "group" -> R(G, Clause("group-members", AsSet(e.out) = Members(G, e.k)))
    [] e.ev = "member" -> R(G, Clause("is-member", e.out = (e.a \in Members(G, e.k))))
    [] e.ev = "join" -> R(GJoin(G, e.k, e.a), Clause("join", e.err = "ok"))
    [] e.ev = "leave" -> R(GLeave(G, e.k, e.a), Clause("leave", e.err = (IF e.a \in Members(G, e.k) THEN "ok" ELSE "EXC:KeyError")))
    [] e.ev = "renew" -> R(GRenew(G, e.k), Clause("renew", e.err = "ok" /\ e.state = <<TRUE, FALSE, TRUE>>))
    [] e.ev = "data" -> R(GData(G, e.k, e.v), Clause("set-data", e.err = "ok"))
    [] e.ev = "getdata" -> R(G, Clause("link-data", e.out = Datum(G, e.k)))
    [] e.ev = "same" -> R(G, Clause("link-identity", e.out = (e.k = e.k2) /\ (e.k = e.k2 => e.hash)))
    [] e.ev = "add" -> R(GAdd(G, e.a, e.t, e.v), {})
    [] e.ev = "next" -> R(GNext(G, e.a), Clause("next", e.err = "ok"))
    [] e.ev = "balance" -> R(G, Clause("own-balance", RCloseS(e.out, BalanceAt(G.acc[e.a], "1"), Mag(G.acc[e.a], NoTx))))
    [] e.ev = "offer" -> R(G, OfferBad(G, e) \cup Clause("offer-changes-nothing", e.same))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
