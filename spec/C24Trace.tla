------------------------------ MODULE C24Trace ------------------------------
EXTENDS TraceBase, Reader
\* State: obj (id -> object), file (name -> tree as in the file).
Init0(s) == [obj |-> <<>>, file |-> <<>>]
R(s, bad) == [st |-> s, bad |-> bad]
Reports(s, e) ==
  Clause("values", \A i \in DOMAIN s.obj : Same(s.obj[i].vals, e.obj[i].vals))
  \cup Clause("attributes", \A i \in DOMAIN s.obj : \A a \in DOMAIN e.obj[i].attrs : Same(Get(s.obj[i], a), e.obj[i].attrs[a]))
Then(s, e, bad) == R(s, bad \cup Reports(s, e))
Ok(e) == e.err = "ok"
Step(s, e) ==
  CASE e.ev = "put" -> Then([s EXCEPT !.file = (e.f :> e.tree) @@ @], e, {})
    [] e.ev = "new" ->
      LET o0 == [vals |-> Empty, hp |-> e.hp, use |-> e.use, defs |-> e.defs]
          o == IF e.f = "none" THEN o0 ELSE [o0 EXCEPT !.vals = Decode(s.file[e.f], e.conv, e.hp)]
      IN IF e.f # "none" /\ e.f \notin DOMAIN s.file THEN Then(s, e, Clause("missing-file", e.err = "EXC:FileNotFoundError"))
         ELSE IF e.f # "none" /\ s.file[e.f].k # "map" THEN Then(s, e, Clause("not-a-table", e.err = "EXC:TypeError"))
         ELSE IF ~Ok(e) THEN R(s, {"error-new"})
         ELSE Then([s EXCEPT !.obj = (e.o :> o) @@ @], e, {})
    [] ~Ok(e) /\ ~(e.ev = "del" /\ ~Has(s.obj[e.o], e.a)) -> R(s, {"error-" \o e.ev})
    [] e.ev = "read" -> Then([s EXCEPT !.obj[e.o].vals = Decode(s.file[e.f], e.conv, s.obj[e.o].hp)], e, {})
    [] e.ev = "write" -> Then([s EXCEPT !.file = (e.f :> Encode(s.obj[e.from].vals)) @@ @], e, {})
    [] e.ev = "dump" -> Then([s EXCEPT !.file = (e.f :> Encode(e.tree)) @@ @], e, Clause("argument-changed", Same(e.tree, e.after)))
    [] e.ev = "assign" -> Then([s EXCEPT !.obj[e.o].vals = e.tree], e, {})
    [] e.ev = "set" -> Then([s EXCEPT !.obj[e.o] = Set(@, e.a, e.v)], e, {})
    [] e.ev = "del" -> Then([s EXCEPT !.obj[e.o] = Del(@, e.a)], e, {})
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
