------------------------------ MODULE C23Trace ------------------------------
EXTENDS TraceBase, Runs
\* setup: kinds, memos (how many), sampler (scenarios draw their own inflation),
\* mag.  The first event gives set (setting -> value, shared by all forecasters)
\* and graph (the relations between the objects supplied).
R(s, bad) == [st |-> s, bad |-> bad]
SetOf(s) == {s[i] : i \in DOMAIN s}
Init0(s) == [S |-> [set |-> <<>>, own |-> [f \in DOMAIN s.kinds |-> [p \in Params |-> 0]],
                    memo |-> [m \in 1..s.memos |-> NoMemo], obj |-> <<>>, kind |-> s.kinds, alt |-> [f \in DOMAIN s.kinds |-> {}]],
             graph |-> {}, sampler |-> s.sampler, world |-> 0, log |-> {}, mag |-> s.mag]
Unknown == "?"
\* A sampling scenario has the inflation it is first seen with.
Draw(M, T, i) == IF ~M.sampler THEN T
   ELSE [T EXCEPT !.obj = [k \in DOMAIN @ |-> IF k > i /\ @[k].p = Scenario THEN [@[k] EXCEPT !.f.inflation = Unknown] ELSE @[k]]]
Seen(T, k, v) == IF k # 0 /\ T.obj[k].f.inflation = Unknown THEN [T EXCEPT !.obj[k].f.inflation = v] ELSE T
\* What object k was seen to be: what is learned, and whether it is as specified.
Same(a, b) == a = b \/ (RIsFin(a) /\ RIsFin(b) /\ RClose(a, b))
Num(x) == x \in {"inflation_adjust"}
Match(T, k, got) ==
  LET x == T.obj[k]
      U == IF x.p = Scenario THEN Seen(T, k, got.inflation)
           ELSE IF x.sc # 0 /\ "inflation_adjust" \in DOMAIN got THEN Seen(T, x.sc, RSub(got.inflation_adjust, "1")) ELSE T
      y == U.obj[k]
  IN [T |-> U, ok |-> /\ \A n \in DOMAIN y.f : n \in DOMAIN got /\ (IF Num(n) THEN RClose(got[n], y.f[n]) ELSE got[n] = y.f[n])
                      /\ (y.sc # 0 => RClose(got.inflation_adjust, RAdd("1", U.obj[y.sc].f.inflation)))]
RECURSIVE MatchAll(_, _, _, _, _)
MatchAll(T, ids, got, i, bad) ==
  IF i > Len(ids) THEN [T |-> T, bad |-> bad]
  ELSE LET r == Match(T, ids[i], got[i])
       IN MatchAll(r.T, ids, got, i + 1, bad \cup Clause(<<"param-scenario", "param-living", "param-saving", "param-withdrawal", "param-tax">>[i], r.ok))
One(M, e, r) ==
  LET T == Draw(M, r.S, Len(M.S.obj))
      q == Match(T, r.id, e.got)
  IN IF e.err # "ok" THEN R([M EXCEPT !.S = T], {"error"})
     ELSE R([M EXCEPT !.S = q.T], Clause("param", q.ok))
Figures(a, b, m) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RCloseS(a[i], b[i], m)
Kept(M, e) == Clause("originals", e.diff = <<>>) \cup Clause("settings", e.set = M.S.set)
OnRun(M, e) ==
  LET r == Plan(M.S, e.f)
      T == Draw(M, r.S, Len(M.S.obj))
      kept == Kept(M, e) \cup Clause("outcome", e.err = e.ref_err)
  IN IF e.err # "ok" THEN R([M EXCEPT !.S = T], kept)
     ELSE LET q == MatchAll(T, r.ids, e.params, 1, {})
              key == <<e.f, e.params, M.world>>
          IN R([M EXCEPT !.S = q.T, !.log = @ \cup {<<key, e.figs>>}],
               kept \cup q.bad
               \cup Clause("relations", SetOf(e.copy) = M.graph)
               \cup Clause("disjoint", e.shared = 0)
               \cup Clause("figures", e.ref_err # "ok" \/ Figures(e.figs, e.ref, M.mag))
               \cup Clause("again", \A x \in M.log : x[1] = key => Figures(x[2], e.figs, M.mag)))
Step(M, e) ==
  CASE e.ev = "start" -> R([M EXCEPT !.S.set = e.set, !.graph = SetOf(e.graph)], {})
    [] e.ev = "set" -> R([M EXCEPT !.S.set[e.key] = e.val], {})
    [] e.ev = "assign" -> One(M, e, SetParam(M.S, e.f, e.p, e.kw, e.memo))
    [] e.ev = "give" -> One(M, e, Give(M.S, e.f, e.p, e.kw))
    [] e.ev = "default" -> R([M EXCEPT !.S = Redirect(@, e.f, e.p, e.x, e.key)], {})
    \* the user changes an explicit parameter from within
    [] e.ev = "tweak" -> R([M EXCEPT !.S.obj[M.S.own[e.f][e.p]].f[e.key] = e.val], Kept(M, e))
    [] e.ev = "clear" -> R([M EXCEPT !.S = Unset(@, e.f, e.p)], {})
    [] e.ev = "build" -> One(M, e, Build(IF e.memo = 1 THEN Fresh(M.S) ELSE M.S, e.f, e.p, e.kw, e.memo))
    [] e.ev = "run" -> OnRun(M, e)
    [] e.ev = "get" -> One(M, e, Get(IF e.memo = 1 THEN Fresh(M.S) ELSE M.S, e.f, e.p, e.memo))
    \* the user changes what they supplied
    [] e.ev = "edit" -> R([M EXCEPT !.world = @ + 1, !.graph = SetOf(e.graph)], Kept(M, e))
    \* the user changes the results of a run, or carries it on for another year
    [] e.ev = "scribble" -> R(M, Kept(M, e))
    [] e.ev = "more" -> R(M, Kept(M, e) \cup Clause("outcome", e.err = e.ref_err)
                              \cup Clause("figures-more", e.err # "ok" \/ e.ref_err # "ok" \/ Figures(e.figs, e.ref, M.mag)))
    [] OTHER -> R(M, {"unknown"})
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
