----------------------------- MODULE Precision -----------------------------
(* Number-valued fields of objects which may use a high-precision type, and  *)
(* the relation between a plan worked out with that type and the same plan   *)
(* worked out with ordinary numbers.                                         *)
(*                                                                           *)
(* A world has objects; an object has number-valued fields and a mode: the   *)
(* number type ("ord" for none) that it converts to.  A value is a number    *)
(* and its type; <<>> stands for no value.                                   *)
EXTENDS Rat, Sequences, FiniteSets, Integers
Number(v, ty) == [v |-> v, ty |-> ty]
NoValue == [v |-> "none", ty |-> "none"]
\* What the code reports for a field of an object: the number it was last set
\* to, in the type the object uses now.  Fields in `conv` are converted when
\* they are read; the others are reported as they were set.
Read(w, o, f) ==
  LET x == w.val[o][f] IN
  IF x = NoValue \/ w.mode[o] = "ord" \/ ~w.conv[f] THEN x ELSE Number(x.v, w.mode[o])
Readings(w) == [o \in DOMAIN w.val |-> [f \in DOMAIN w.val[o] |-> Read(w, o, f)]]
\* Setting a field, or the type, of one object concerns no other object.
SetField(w, o, f, x) == [w EXCEPT !.val = [@ EXCEPT ![o] = [@ EXCEPT ![f] = x]]]
SetMode(w, o, m) == [w EXCEPT !.mode = [@ EXCEPT ![o] = m]]
\* A copy begins with the same values, and is an object of its own.
Copy(w, from, to) == [w EXCEPT !.val = [@ EXCEPT ![to] = w.val[from]], !.mode = [@ EXCEPT ![to] = w.mode[from]]]

(* Numbers as a computation sees them: a type and a value.  Whole numbers    *)
(* belong to both kinds of number; ordinary floating-point numbers and       *)
(* high-precision ones do not mix.                                           *)
Mixes(a, b) == a = b \/ "int" \in {a, b}
Result(a, b) == IF a = "int" THEN b ELSE a
\* The types a figure of an object may have, for what is given to it:
Allowed(mode) == IF mode = "ord" THEN {"ord", "int"} ELSE {mode, "int"}

(* Two reports of one plan.  Numbers agree up to rounding (relative to the   *)
(* size m of what is being computed, and within `eps`, the amount below      *)
(* which the code takes differences for rounding); the rest is equal.        *)
Agrees(a, b, m, eps) == RCloseS(a, b, m) \/ (eps # "0" /\ RIsFin(a) /\ RIsFin(b) /\ RLe(RAbs(RSub(a, b)), eps))
============================================================================
