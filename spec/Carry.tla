-------------------------------- MODULE Carry --------------------------------
(***************************************************************************)
(* A forecast carries cash and tax from one year to the next (C18).        *)
(*                                                                         *)
(* State F: year; phase (how many of the five parts have been called this  *)
(* year); cash: time -> flow; objs: the year each object (part, person,    *)
(* account) is in; adj: the tax adjustment to come, <<>> if there is none  *)
(* to be known, else <<v>>; refund and payment: schedules (pairs of time   *)
(* and weight).                                                            *)
(***************************************************************************)
EXTENDS Moves
Total(cash) == RSum(cash)
Series(w, v) ==
  LET total == RSumSeq([i \in DOMAIN w |-> w[i][2]])
      At(t) == RSumSeq([i \in DOMAIN w |-> IF w[i][1] = t THEN RDiv(RMul(v, w[i][2]), total) ELSE "0"])
  IN [t \in {w[i][1] : i \in DOMAIN w} |-> At(t)]
\* A year starts with the cash left over, and the tax adjustment of the year
\* before: a refund (positive) or a payment (negative).
StartCash(left, adj, refund, payment) ==
  Merge("0" :> left,
        IF adj = <<>> \/ RZero(adj[1]) THEN MNone
        ELSE Series(IF RPos(adj[1]) THEN refund ELSE payment, adj[1]))
InStep(F) == \A k \in DOMAIN F.objs : F.objs[k] = F.year
\* Part p may be called: parts run in order, once a year, on objects that are
\* all in that year.
MayCall(F, p) == F.phase = p - 1 /\ InStep(F)
DoPart(F, p, flows) == [F EXCEPT !.phase = p, !.cash = Merge(@, flows)]
\* An object is advanced: once a year, after the last part has run.
MayAdvance(F, k) == F.phase = 5 /\ F.objs[k] = F.year
Advance(F, k) == [F EXCEPT !.objs[k] = @ + 1]
\* The new year, once every object has been advanced.
MayStart(F) == F.phase = 5 /\ \A k \in DOMAIN F.objs : F.objs[k] = F.year + 1
Start(F) == [F EXCEPT !.year = @ + 1, !.phase = 0, !.adj = <<>>,
                      !.cash = StartCash(Total(F.cash), F.adj, F.refund, F.payment)]

\* --- the guarantees ------------------------------------------------------------
\* Closing wealth is opening wealth, returns and what came from outside.  A year
\* Y: [open, close: wealth in accounts and debts; cash0, cash1: cash at its start
\* and at the start of the next; returns; outside: what the parts brought in from
\* or took out of the world; adj].
Reconciles(Y, m) ==
  RCloseS(RAdd(Y.close, Y.cash1), RAdd(RAdd(RAdd(Y.open, Y.cash0), Y.returns), RAdd(Y.outside, Y.adj)), m)
=============================================================================
