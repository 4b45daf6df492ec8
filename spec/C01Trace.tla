------------------------------ MODULE C01Trace ------------------------------
(***************************************************************************)
(* Traces of year-by-year objects against module Ledger.                   *)
(*  "op"    one operation on an instrumented ledger, with its result;      *)
(*  "snap"  the visible records of a real object (account, person, part of *)
(*          a forecast) after an arbitrary operation on the object graph.  *)
(***************************************************************************)
EXTENDS TraceBase, Ledger

Init0(s) ==
  IF s.mode = "ledger"
  THEN [L |-> LInit(s.year, s.kinds, s.inputs, s.src), snaps |-> <<>>]
  ELSE [L |-> <<>>, snaps |-> <<>>]

Keep(L, bad) == [L |-> L, bad |-> bad]

StepOp(L, e) ==
  CASE e.op = "read" ->
         LET r == Read(L, e.p) IN Keep(r.L, Clause("read-value", e.out = r.out))
    [] e.op = "record" ->
         LET r == Record(L, e.p) IN Keep(r.L, Clause("record-contents", e.out = r.out))
    [] e.op = "assign" -> Keep(Assign(L, e.p, e.v), Clause("assign-result", e.out = "ok"))
    [] e.op = "source" -> Keep([L EXCEPT !.src = [p \in DOMAIN L.kinds |-> e.v]], {})
    [] e.op = "clear" -> Keep(ClearCache(L), Clause("clear-result", e.out = "ok"))
    [] e.op = "next" -> Keep(NextYear(L), Clause("next-result", e.out = "ok")
                                          \cup Clause("year-advance", e.year = L.year + 1))

\* One object's snapshot: s = [first, year, hist, cur, inputs, jump]
Years(a, b) == {Y(n) : n \in a..b}
SnapBad(s) ==
  UNION { Clause("record-complete", Years(s.first, s.year) \subseteq DOMAIN s.hist[p])
          \cup Clause("no-entries-ahead",
                 \A y \in DOMAIN s.hist[p] : y \in Years(s.first, s.year)
                    \/ (Has(s.inputs, p) /\ Has(s.inputs[p], y)))
          \cup Clause("current-in-record", Has(s.hist[p], Y(s.year)) => s.hist[p][Y(s.year)] = s.cur[p])
          \cup Clause("user-input-kept", Has(s.inputs, p) =>
                 \A y \in DOMAIN s.inputs[p] \ {Y(s.first)} :
                      Has(s.hist[p], y) /\ s.hist[p][y] = s.inputs[p][y])
          : p \in DOMAIN s.hist }
\* Two successive snapshots of the object, o before n.
PairBad(o, n) ==
  UNION { Clause("append-only", \A y \in Years(o.first, o.year - 1) :
                 Has(n.hist[p], y) /\ n.hist[p][y] = o.hist[p][y])
          : p \in DOMAIN o.hist }
  \cup Clause("year-monotone", n.year >= o.year /\ n.first = o.first)
  \cup Clause("same-quantities", DOMAIN n.hist = DOMAIN o.hist)
  \* the operation between the two was exactly this object's own advance:
  \cup (IF n.closing /\ n.year = o.year + 1
        THEN UNION { Clause("closed-at-last-value",
                            Has(n.hist[p], Y(o.year)) /\ n.hist[p][Y(o.year)] = o.cur[p])
                     : p \in DOMAIN o.hist }
        ELSE {})
  \cup Clause("advance-one", n.closing => n.year = o.year + 1)

StepSnap(sn, e) ==
  LET bad == SnapBad(e.snap) \cup (IF Has(sn, e.obj) THEN PairBad(sn[e.obj], e.snap) ELSE {})
  IN [snaps |-> Put(sn, e.obj, e.snap), bad |-> bad]

Step(s, e) ==
  IF e.ev = "op"
  THEN LET r == StepOp(s.L, e) IN [st |-> [s EXCEPT !.L = r.L], bad |->
          r.bad \cup Clause("Complete", Complete(r.L)) \cup Clause("AppendOnly", AppendOnly(s.L, r.L))]
  ELSE LET r == StepSnap(s.snaps, e) IN [st |-> [s EXCEPT !.snaps = r.snaps], bad |-> r.bad]

TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
