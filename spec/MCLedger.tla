------------------------------ MODULE MCLedger ------------------------------
(* Exhaustive exploration of module Ledger, and the behaviours to replay.   *)
EXTENDS Ledger, Json
CONSTANTS Depth, Emit, Props
VARIABLES L, ops
vars == <<L, ops>>
Kinds == [p \in Props |-> p]     \* one quantity per kind, named after it
InputSets == { <<>>,
               [cached |-> [y2001 |-> 0]],
               [plain |-> [y2001 |-> 0]] }
In(k) == CASE k = 0 -> <<>>
           [] k = 1 -> ("cached" :> ("2001" :> "70"))
           [] k = 2 -> ("plain" :> ("2001" :> "70") @@ "custom" :> ("2001" :> "71"))
           [] k = 3 -> ("cached" :> ("2002" :> "70" @@ "2001" :> "69") @@ "ccustom" :> ("2001" :> "72"))
Inputs(k) == [p \in DOMAIN In(k) \cap Props |-> In(k)[p]]
Init == /\ \E k \in 0..3 : L = LInit(2000, Kinds, Inputs(k), [p \in Props |-> "10"])
        /\ ops = <<>>
V == ToString(100 + Len(ops))    \* every written value is distinguishable
Do(op, M) == L' = M /\ ops' = Append(ops, op)
Next ==
  /\ Len(ops) < Depth
  /\ \/ \E p \in Props :
        \/ Do([op |-> "read", p |-> p], Read(L, p).L)
        \/ Do([op |-> "record", p |-> p], Record(L, p).L)
        \/ Do([op |-> "assign", p |-> p, v |-> V], Assign(L, p, V))
     \/ Do([op |-> "source", v |-> V], [L EXCEPT !.src = [p \in Props |-> V]])
     \/ Do([op |-> "clear"], ClearCache(L))
     \/ Do([op |-> "next"], NextYear(L))
Spec == Init /\ [][Next]_vars
Inv == Complete(L) /\ InputsKept(L) /\ NothingAhead(L)
Append1 == [][AppendOnly(L, L')]_vars
OnlyNextAdvances == [][L'.year = L.year \/ (L'.year = L.year + 1 /\ L' = NextYear(L))]_vars
EmitAll == (Emit /\ Len(ops) = Depth) =>
   PrintT(<<"GEN", ToJson([inputs |-> L.inputs, ops |-> ops])>>)
=============================================================================
