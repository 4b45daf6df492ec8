----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Trace validation, shared by all trace specifications.                   *)
(*                                                                         *)
(* The trace file holds one scenario per line: a setup record and the      *)
(* sequence of events recorded from the real code.  Every scenario is one  *)
(* behaviour of the trace specification (one initial state), consumed one  *)
(* event per step.  A module that uses this one gives, for its abstract    *)
(* state, Step(st, e): the successor state and the set of names of the     *)
(* clauses that event e breaks ({} when e is the specified step).  The     *)
(* verdict is total: a broken clause is reported and the trace goes on.    *)
(***************************************************************************)
EXTENDS Rat, Json, IOUtils, FiniteSets, TLC
VARIABLES sc, l, st
tvars == <<sc, l, st>>

Trace == ndJsonDeserialize(IOEnv.VF_TRACE)

InitWith(Init0(_)) == /\ sc \in DOMAIN Trace
                      /\ l = 0
                      /\ st = Init0(Trace[sc].setup)

Report(bad) == \A b \in bad : PrintT(<<"BAD", sc, l + 1, b>>)

NextWith(Step(_, _)) ==
  /\ l < Len(Trace[sc].events)
  /\ LET e == Trace[sc].events[l + 1]
         r == IF e.ev \in {"hang", "crash"} THEN [st |-> st, bad |-> {e.ev}]
              ELSE Step(st, e)
     IN /\ Report(r.bad)
        /\ st' = r.st
  /\ l' = l + 1
  /\ UNCHANGED sc

\* A clause: {} when it holds, its name when it does not.
Clause(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================
