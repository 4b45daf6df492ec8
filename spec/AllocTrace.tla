----------------------------- MODULE AllocTrace -----------------------------
(* What C13 and C14 share: the problem, read from what was recorded.           *)
(* setup: T (nodes with lim: limits by direction), accts (groups by            *)
(* direction), groups (their limits), dup (accounts may occur twice)           *)
(* (a call after the first may come with a tree T of its own)                 *)
EXTENDS TraceBase, Alloc
Lim(lim, f) == IF f \in DOMAIN lim THEN lim[f] ELSE "inf"
Dir(out) == IF out THEN "outflow" ELSE "inflow"
NodeIn(n, d) == [k |-> n.k, leaf |-> n.leaf, kids |-> n.kids, ws |-> n.ws,
                 mn |-> Lim(n.lim, "min_" \o d), mx |-> Lim(n.lim, "max_" \o d)]
GroupIn(a, f) == IF f \in DOMAIN a.groups THEN a.groups[f] ELSE 0
Problem(s, e) ==
  LET d == Dir(e.out)  t == IF "T" \in DOMAIN e THEN e.T ELSE s.T IN
  [T |-> [n \in DOMAIN t |-> NodeIn(t[n], d)], lo |-> e.lo, hi |-> e.hi,
   gmin |-> [x \in DOMAIN s.accts |-> GroupIn(s.accts[x], "min_" \o d)],
   gmax |-> [x \in DOMAIN s.accts |-> GroupIn(s.accts[x], "max_" \o d)],
   Gmin |-> [g \in DOMAIN s.groups |-> s.groups[g]["min_" \o d]],
   Gmax |-> [g \in DOMAIN s.groups |-> s.groups[g]["max_" \o d]],
   total |-> e.total, out |-> e.out]
Flow(Q, e) == [x \in DOMAIN e.got |-> RAbs(e.got[x])]
\* Flows of less than this count as none.
Tiny == "1/100000"
=============================================================================
