---------------------------- MODULE MCPrecision ----------------------------
(* Every short history of setting, converting and copying two objects.       *)
EXTENDS Precision, Json, TLC
CONSTANTS Objs, Fields, Vals, Types, Modes, Depth, Emit
VARIABLES w, log
vars == <<w, log>>
Rec(f) == f  \* (all functions here have strings or small integers as keys)
Start == [val |-> [o \in Objs |-> [f \in Fields |-> NoValue]], mode |-> [o \in Objs |-> "ord"], conv |-> [f \in Fields |-> TRUE]]
Init == w = Start /\ log = <<>>
Ops == [op : {"set"}, o : Objs, f : Fields, v : Vals, ty : Types] \cup [op : {"clear"}, o : Objs, f : Fields]
       \cup [op : {"mode"}, o : Objs, m : Modes] \cup [op : {"copy"}, o : Objs, to : Objs]
Apply(s, e) ==
  CASE e.op = "set" -> SetField(s, e.o, e.f, Number(e.v, e.ty))
    [] e.op = "clear" -> SetField(s, e.o, e.f, NoValue)
    [] e.op = "mode" -> SetMode(s, e.o, e.m)
    [] e.op = "copy" -> Copy(s, e.o, e.to)
Next == Len(log) < Depth /\ \E e \in Ops : (e.op = "copy" => e.o # e.to) /\ w' = Apply(w, e) /\ log' = Append(log, e)
Spec == Init /\ [][Next]_vars
\* The last thing done to field f of object o:
RECURSIVE LastSet(_, _, _)
LastSet(k, o, f) ==
  IF k = 0 THEN NoValue
  ELSE LET e == log[k] IN
       IF e.op = "set" /\ e.o = o /\ e.f = f THEN Number(e.v, e.ty)
       ELSE IF e.op = "clear" /\ e.o = o /\ e.f = f THEN NoValue
       ELSE IF e.op = "copy" /\ e.to = o THEN LastSet(k - 1, e.o, f)
       ELSE LastSet(k - 1, o, f)
ReadsLast == \A o \in Objs, f \in Fields : w.val[o][f] = LastSet(Len(log), o, f)
Value == \A o \in Objs, f \in Fields : Read(w, o, f).v = w.val[o][f].v
Typed == \A o \in Objs, f \in Fields : w.mode[o] # "ord" /\ w.val[o][f] # NoValue => Read(w, o, f).ty = w.mode[o]
\* Converted fields mix with whatever else is in the object's type:
Mixing == \A o \in Objs : w.mode[o] # "ord" =>
            \A f, g \in Fields : w.val[o][f] # NoValue /\ w.val[o][g] # NoValue => Mixes(Read(w, o, f).ty, Read(w, o, g).ty)
TouchOnly == [][\A o \in Objs : (log' # log /\ ~(log'[Len(log')].op = "copy" /\ log'[Len(log')].to = o)
                                 /\ ~(log'[Len(log')].op # "copy" /\ log'[Len(log')].o = o)) =>
                  Readings(w)'[o] = Readings(w)[o]]_vars
EmitAll == (Emit /\ Len(log) = Depth) => PrintT(<<"GEN", ToJson([ops |-> log])>>)
============================================================================
