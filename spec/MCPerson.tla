------------------------------ MODULE MCPerson ------------------------------
(* Marriages and account owners in every order; incomes over the years.     *)
EXTENDS Person, Sequences, Json, TLC
CONSTANTS Depth, Emit, People, Accts
VARIABLES sp, ow, year, inc, ops
vars == <<sp, ow, year, inc, ops>>
Ret == [y |-> 2001, m |-> 6, d |-> 1]
Init == /\ sp = [p \in People |-> "none"] /\ ow = [a \in Accts |-> "none"]
        /\ year = 2000 /\ inc = <<"100">> /\ ops = <<>>
Do(o) == ops' = Append(ops, o)
Next == /\ Len(ops) < Depth
        /\ \/ \E a \in People, b \in (People \cup {"none"}) : a # b /\
                sp' = SetSpouse(sp, a, b) /\ Do([k |-> "spouse", p |-> a, to |-> b]) /\ UNCHANGED <<ow, year, inc>>
           \/ \E a \in People : Do([k |-> "spouse", p |-> a, to |-> "bad"]) /\ UNCHANGED <<sp, ow, year, inc>>
           \/ \E x \in Accts, b \in (People \cup {"none"}) :
                ow' = [ow EXCEPT ![x] = b] /\ Do([k |-> "owner", a |-> x, to |-> b]) /\ UNCHANGED <<sp, year, inc>>
           \/ \E x \in Accts : Do([k |-> "owner", a |-> x, to |-> "bad"]) /\ UNCHANGED <<sp, ow, year, inc>>
           \/ \E r \in {"0", "1/10"} :
                year' = year + 1 /\ inc' = Append(inc, Raised(inc[Len(inc)], r, Ret, year + 1))
                /\ Do([k |-> "next", rate |-> r]) /\ UNCHANGED <<sp, ow>>
Spec == Init /\ [][Next]_vars
Mutual == \A a, b \in People : (sp[a] = b) <=> (sp[b] = a)
NotSelf == \A a \in People : sp[a] # a
OneOwner == \A x \in Accts : Cardinality({p \in People : x \in Owned(ow, p)}) = (IF ow[x] = "none" THEN 0 ELSE 1)
NoneAfter == \A i \in DOMAIN inc : (2000 + i - 1 > Ret.y) <=> REq(inc[i], "0")
\* A change of partner only concerns the two, and those who were theirs.
Bystanders == [][\A q \in People : sp'[q] # sp[q] =>
   LET o == ops'[Len(ops')] IN q \in {o.p, o.to} \/ sp[q] \in {o.p, o.to}]_vars
EmitAll == (Emit /\ Len(ops) = Depth) => PrintT(<<"GEN", ToJson([ops |-> ops])>>)
=============================================================================
