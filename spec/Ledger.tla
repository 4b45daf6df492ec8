------------------------------- MODULE Ledger -------------------------------
(***************************************************************************)
(* Year-by-year records (C01).                                             *)
(*                                                                         *)
(* A ledger has recorded quantities of four kinds:                         *)
(*   plain   recomputed from its source whenever it is read                *)
(*   cached  computed once per year, at the first read                     *)
(*   custom  plain, with a setter that stores into the source              *)
(*   ccustom cached, with a setter that stores into the source             *)
(* State: the current year, the source value of each quantity (what it     *)
(* would compute to now), the record hist[p] (year -> value, including the *)
(* user's inputs for any year), and the user's inputs.                     *)
(* Years are integers; records are keyed by their decimal strings.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Y(n) == ToString(n)
Has(f, k) == k \in DOMAIN f
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
IsCached(kind) == kind \in {"cached", "ccustom"}
IsCustom(kind) == kind \in {"custom", "ccustom"}

LInit(year, kinds, inputs, src) ==
  [year |-> year, first |-> year, kinds |-> kinds, inputs |-> inputs,
   src |-> src,
   hist |-> [p \in DOMAIN kinds |-> IF Has(inputs, p) THEN inputs[p] ELSE <<>>]]

UserGiven(L, p) == Has(L.inputs, p) /\ Has(L.inputs[p], Y(L.year))
Recorded(L, p) == Has(L.hist[p], Y(L.year))
Value(L, p) == IF Recorded(L, p) THEN L.hist[p][Y(L.year)] ELSE L.src[p]
Touch(L, p) == IF IsCached(L.kinds[p])
               THEN [L EXCEPT !.hist[p] = Put(@, Y(L.year), Value(L, p))]
               ELSE L

\* The source of p changes: not visible in any closed or cached year.
SetSource(L, p, v) == [L EXCEPT !.src[p] = v]
\* Reading.
Read(L, p) == [L |-> Touch(L, p), out |-> Value(L, p)]
\* Assignment: never displaces the user's value for this year.
Assign(L, p, v) ==
  IF UserGiven(L, p) THEN L
  ELSE IF IsCustom(L.kinds[p])
       THEN [L EXCEPT !.src[p] = v, !.hist[p] = Drop(@, Y(L.year))]
       ELSE [L EXCEPT !.hist[p] = Put(@, Y(L.year), v)]
ClearCache(L) ==
  [L EXCEPT !.hist = [p \in DOMAIN L.kinds |->
     IF IsCached(L.kinds[p]) /\ ~UserGiven(L, p)
     THEN Drop(L.hist[p], Y(L.year)) ELSE L.hist[p]]]
\* Reading the whole record; always includes the current year.
Record(L, p) == [L |-> Touch(L, p), out |-> Put(L.hist[p], Y(L.year), Value(L, p))]
NextYear(L) ==
  [L EXCEPT !.year = L.year + 1,
            !.hist = [p \in DOMAIN L.kinds |-> Put(L.hist[p], Y(L.year), Value(L, p))]]

\* --- the guarantees, as predicates over one state and one step
Closed(L) == L.first..(L.year - 1)
Complete(L) == \A p \in DOMAIN L.kinds : \A y \in Closed(L) : Has(L.hist[p], Y(y))
InputsKept(L) ==
  \A p \in DOMAIN L.inputs : \A y \in DOMAIN L.inputs[p] :
     Has(L.hist[p], y) /\ L.hist[p][y] = L.inputs[p][y]
NothingAhead(L) ==    \* no entries past this year, except the user's
  \A p \in DOMAIN L.kinds : \A y \in DOMAIN L.hist[p] :
     \/ y \in {Y(n) : n \in L.first..L.year}
     \/ Has(L.inputs, p) /\ Has(L.inputs[p], y)
AppendOnly(L, M) ==   \* L before, M after
  \A p \in DOMAIN L.kinds : \A y \in Closed(L) :
     Has(M.hist[p], Y(y)) /\ M.hist[p][Y(y)] = L.hist[p][Y(y)]
=============================================================================
