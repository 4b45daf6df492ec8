------------------------------- MODULE Reader -------------------------------
(* Settings files and the objects that read them.                          *)
(*                                                                         *)
(* A value tree is made of nodes                                           *)
(*   [k: "num", v, t, f, r]  v: the number; t: "int", "float" or "hp" (high *)
(*                        precision); f, r: the number rounded to a float  *)
(*                        and the decimal digits of that float             *)
(*   [k: "str", s, n, lit, f, r]  n: the number it spells, or "none"; lit:  *)
(*                        it is spelled as a whole number                  *)
(*   [k: "bool", s], [k: "null"], [k: "list", c], [k: "map", m]             *)
(* where m is a sequence of [key, val].  In a file, keys are strings and    *)
(* there are no high-precision numbers; in it v of a "float" is the number  *)
(* as it is written, digit by digit.                                       *)
EXTENDS Rat, FiniteSets
RECURSIVE Encode(_), Decode(_, _, _), Same(_, _), Plain(_)
AsStr(n) == IF n.k = "str" THEN n
            ELSE [k |-> "str", s |-> "", n |-> IF n.t = "float" THEN n.r ELSE n.v, lit |-> n.t = "int", f |-> n.f, r |-> n.r]
\* What is written for a value ...
Encode(n) ==
  CASE n.k = "num" -> IF n.t = "hp" THEN AsStr(n) ELSE IF n.t = "float" THEN [n EXCEPT !.v = n.r] ELSE n
    [] n.k = "list" -> [n EXCEPT !.c = [i \in DOMAIN n.c |-> Encode(n.c[i])]]
    [] n.k = "map" -> [n EXCEPT !.m = [i \in DOMAIN n.m |-> [key |-> AsStr(n.m[i].key), val |-> Encode(n.m[i].val)]]]
    [] OTHER -> n
\* ... and what is read (conv: strings that spell numbers become numbers).
Number(v, hp, n) == [k |-> "num", v |-> v, t |-> IF RIsFin(v) /\ RIsInt(v) THEN "int" ELSE IF hp THEN "hp" ELSE "float", f |-> n.f, r |-> n.r]
Decode(n, conv, hp) ==
  CASE n.k = "num" -> IF n.t # "float" THEN n ELSE IF hp THEN [n EXCEPT !.t = "hp"] ELSE [n EXCEPT !.v = n.f]
    [] n.k = "str" -> IF conv /\ n.n # "none" THEN Number(IF hp \/ n.lit THEN n.n ELSE n.f, hp, n) ELSE n
    [] n.k = "list" -> [n EXCEPT !.c = [i \in DOMAIN n.c |-> Decode(n.c[i], conv, hp)]]
    [] n.k = "map" -> [n EXCEPT !.m = [i \in DOMAIN n.m |->
                          [key |-> Decode(n.m[i].key, conv, hp), val |-> Decode(n.m[i].val, conv, hp)]]]
    [] OTHER -> n
\* The same value: equal numbers, of the right kind where that matters.
Whole(n) == ~RIsFin(n.v) \/ RIsInt(n.v)
Same(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "num" -> REq(a.v, b.v) /\ (Whole(a) \/ a.t = b.t)
       [] a.k = "str" -> a.s = b.s \/ (a.s = "" /\ a.n # "none" /\ b.n # "none" /\ REq(a.n, b.n))  \* (a number's digits)
       [] a.k = "bool" -> a.s = b.s
       [] a.k = "list" -> Len(a.c) = Len(b.c) /\ \A i \in DOMAIN a.c : Same(a.c[i], b.c[i])
       [] a.k = "map" -> Len(a.m) = Len(b.m) /\
            \A i \in DOMAIN a.m : \E j \in DOMAIN b.m : Same(a.m[i].key, b.m[j].key) /\ Same(a.m[i].val, b.m[j].val)
       [] OTHER -> TRUE
\* No string that spells a number: such a tree survives writing and reading.
Plain(n) ==
  CASE n.k = "str" -> n.n = "none"
    [] n.k = "list" -> \A i \in DOMAIN n.c : Plain(n.c[i])
    [] n.k = "map" -> \A i \in DOMAIN n.m : Plain(n.m[i].key) /\ Plain(n.m[i].val)
    [] OTHER -> TRUE

(* An object: vals (name -> tree), hp, defaults (name -> tree) and whether   *)
(* it uses them.                                                           *)
Entry(m, a) == {i \in DOMAIN m : m[i].key.k = "str" /\ m[i].key.s = a}
Has(o, a) == Entry(o.vals.m, a) # {}
Get(o, a) == IF Has(o, a) THEN o.vals.m[CHOOSE i \in Entry(o.vals.m, a) : TRUE].val
             ELSE IF o.use /\ a \in DOMAIN o.defs THEN o.defs[a] ELSE [k |-> "none"]
Drop(m, a) == SelectSeq(m, LAMBDA x : ~(x.key.k = "str" /\ x.key.s = a))
Name(a) == [k |-> "str", s |-> a, n |-> "none", lit |-> FALSE, f |-> "0", r |-> "0"]
Set(o, a, v) == [o EXCEPT !.vals.m = Append(Drop(@, a), [key |-> Name(a), val |-> v])]
Del(o, a) == [o EXCEPT !.vals.m = Drop(@, a)]
Empty == [k |-> "map", m |-> <<>>]
=============================================================================
