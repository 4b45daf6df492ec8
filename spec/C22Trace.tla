------------------------------ MODULE C22Trace ------------------------------
EXTENDS TraceBase, Extend
\* setup: tab (list of [y, f]), idx (year string -> price), kind of indexation
\* ("none", "dict", "call"), first (lowest year in idx)
Init0(s) == s
R(s, bad) == [st |-> s, bad |-> bad]
Step(s, e) ==
  LET T == {s.tab[i].y : i \in DOMAIN s.tab}
      Tab(y) == s.tab[CHOOSE i \in DOMAIN s.tab : s.tab[i].y = y].f
      F(t, b) == IF s.kind = "none" THEN "1" ELSE RDiv(s.idx[RInt(t)], s.idx[RInt(b)])
  IN
  CASE e.ev = "table" -> R([s EXCEPT !.tab = e.tab], {})
    [] e.ev = "nearest" -> R(s, Clause("nearest", IF T = {} THEN e.none ELSE ~e.none /\ e.out = Nearest(T, e.y))
                                \cup Clause("unchanged", e.same))
    [] e.ev = "extend" -> R(s,
          IF T = {} THEN Clause("nothing-to-extend", e.err # "ok")
          ELSE IF e.err # "ok" THEN {"extend-error"}
          ELSE Clause("extended", FClose(e.out, Figure(Tab, T, F, e.y)))
               \cup Clause("listed-exact", e.y \in T => e.out = Tab(e.y))
               \cup Clause("type-kept", e.type)
               \cup Clause("unchanged", e.same))
    [] e.ev = "adjust" -> R(s, Clause("indexation", RCloseTol(e.out, F(e.t, IF e.hasb THEN e.b ELSE s.first), "1/1000000000")))
    [] e.ev = "reject" -> R(s, Clause("rejects", e.out = "EXC:TypeError"))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
