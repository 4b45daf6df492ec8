------------------------------ MODULE MCReader ------------------------------
(* Two objects, one of them in high precision, and a file between them.     *)
EXTENDS Reader, Sequences, Json, TLC
CONSTANTS Depth, Emit
VARIABLES obj, file, ops
vars == <<obj, file, ops>>
Num(v, t) == [k |-> "num", v |-> v, t |-> t, f |-> v, r |-> v]
Third == [k |-> "num", v |-> "3333333333333333333333333/10000000000000000000000000", t |-> "hp",
          f |-> "6004799503160661/18014398509481984", r |-> "3333333333333333/10000000000000000"]
Str(s, n) == [k |-> "str", s |-> s, n |-> n, lit |-> TRUE, f |-> n, r |-> n]
Leaves(hp) == {Num("1", "int"), Num("12345678901234567890", "int"), Str("a", "none"), Str("5", "5"), [k |-> "bool", s |-> "true"]}
               \cup (IF hp THEN {Num("1/2", "hp"), Third, Num("inf", "hp")} ELSE {Num("1/2", "float"), Num("inf", "float")})
Keys(hp) == {Num("2000", "int"), Str("a", "none")} \cup (IF hp THEN {Third} ELSE {Num("1/2", "float")})
Trees(hp) == Leaves(hp) \cup {[k |-> "list", c |-> <<x, Str("a", "none")>>] : x \in (IF hp THEN {Third, Num("1/2", "hp")} ELSE {Str("5", "5")})}
             \cup {[k |-> "map", m |-> <<[key |-> q, val |-> Num("1", "int")]>>] : q \in Keys(hp)}
Ids == {"lo", "hi"}
Hp(i) == i = "hi"
Obj(i) == [vals |-> Empty, hp |-> Hp(i), use |-> TRUE, defs |-> [a \in {"b"} |-> Num("7", "int")]]
Init == obj = [i \in Ids |-> Obj(i)] /\ file = Empty /\ ops = <<>>
Do(o) == ops' = Append(ops, o)
Next == /\ Len(ops) < Depth
        /\ \E i \in Ids :
           \/ \E a \in {"a", "b"} : \E x \in (IF a = "b" THEN {Num("1", "int")} ELSE Trees(Hp(i))) :
                obj' = [obj EXCEPT ![i] = Set(@, a, x)] /\ Do([k |-> "set", o |-> i, a |-> a, v |-> x]) /\ UNCHANGED file
           \/ Has(obj[i], "b") /\ obj' = [obj EXCEPT ![i] = Del(@, "b")] /\ Do([k |-> "del", o |-> i, a |-> "b"]) /\ UNCHANGED file
           \/ file' = Encode(obj[i].vals) /\ Do([k |-> "write", o |-> i]) /\ UNCHANGED obj
           \/ obj' = [obj EXCEPT ![i].vals = Decode(file, TRUE, Hp(i))] /\ Do([k |-> "read", o |-> i]) /\ UNCHANGED file
Spec == Init /\ [][Next]_vars
\* Writing and reading back gives equal values, whatever they are.
RoundTrip == \A i \in Ids : Plain(obj[i].vals) => Same(Decode(Encode(obj[i].vals), TRUE, Hp(i)), obj[i].vals)
\* Reading is stable: what has been read once survives as it is.
Stable == \A i \in Ids : LET v == Decode(file, TRUE, Hp(i)) IN Same(Decode(Encode(v), TRUE, Hp(i)), v)
Fallback == \A i \in Ids : ~Has(obj[i], "b") => Same(Get(obj[i], "b"), Num("7", "int"))
\* Changing one object changes neither the file nor the other object.
Apart == [][LET o == ops'[Len(ops')] IN
             /\ \A i \in Ids : obj'[i] # obj[i] => o.o = i
             /\ (file' # file => o.k = "write")]_vars
EmitAll == (Emit /\ Len(ops) = Depth) => PrintT(<<"GEN", ToJson([ops |-> ops])>>)
=============================================================================
