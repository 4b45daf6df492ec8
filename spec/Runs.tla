-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* A Forecaster builds the parts of a forecast from settings and explicit  *)
(* parameters, and runs it on copies of what the user supplied (C23).      *)
(*                                                                         *)
(* State S: set: setting -> value; own: forecaster -> parameter -> the     *)
(* explicit object or 0; memo: memo -> parameter -> the object built under *)
(* it or 0 (memo 1 lasts for one operation); kind: forecaster -> "base" or *)
(* "canada"; alt: forecaster -> the sources that were changed for it; obj: *)
(* all parameter objects: [p, f: the values of its fields,                 *)
(* sc: the scenario that adjusts it for inflation, or 0].                  *)
(*                                                                         *)
(* Heap H: what the user supplied: id -> [k: kind, rel: relation -> set of *)
(* ids, val: its figures].                                                 *)
(***************************************************************************)
EXTENDS Rat, Naturals, Sequences, FiniteSets, TLC
Scenario == "scenario"
Living == "living_expenses_strategy"
Saving == "saving_strategy"
Withdrawal == "withdrawal_strategy"
Allocation == "allocation_strategy"
Taxes == "tax_treatment"
Params == {Scenario, Living, Saving, Withdrawal, Allocation, Taxes}
\* What a run needs, in order.
Needed == <<Scenario, Living, Saving, Withdrawal, Taxes>>
Ref == "@scenario"
\* Where each field comes from unless it is given: a setting, or the scenario.
Source(kind, p) ==
  CASE p = Scenario -> [initial_year |-> "initial_year", num_years |-> "num_years", inflation |-> "inflation",
                        stock_return |-> "stock_return", bond_return |-> "bond_return", other_return |-> "other_return",
                        management_fees |-> "management_fees"]
    [] p = Living -> [strategy |-> "living_expenses_strategy", base_amount |-> "living_expenses_base_amount",
                      rate |-> "living_expenses_rate", inflation_adjust |-> Ref]
    [] p = Saving -> [strategy |-> "saving_strategy", weights |-> "saving_weights"]
    [] p = Withdrawal -> [strategy |-> "withdrawal_strategy", weights |-> "withdrawal_weights"]
    [] p = Allocation -> [strategy |-> "allocation_strategy", target |-> "allocation_target", min_equity |-> "allocation_min_equity",
                          max_equity |-> "allocation_max_equity", standard_retirement_age |-> "allocation_std_retirement_age",
                          risk_transition_period |-> "allocation_risk_trans_period",
                          adjust_for_retirement_plan |-> "allocation_adjust_retirement"]
    [] p = Taxes /\ kind = "base" -> [tax_brackets |-> "tax_brackets", personal_deduction |-> "tax_personal_deduction",
                                      credit_rate |-> "tax_credit_rate", inflation_adjust |-> Ref, payment_timing |-> "tax_payment_timing"]
    [] p = Taxes /\ kind # "base" -> [inflation_adjust |-> Ref, province |-> "tax_province"]
\* ... which can be changed for one forecaster at a time.
Src(S, f, p) == LET b == Source(S.kind[f], p)
                IN [x \in DOMAIN b |-> IF \E a \in S.alt[f] : a[1] = p /\ a[2] = x
                                       THEN (CHOOSE a \in S.alt[f] : a[1] = p /\ a[2] = x)[3] ELSE b[x]]
Redirect(S, f, p, x, key) == [S EXCEPT !.alt[f] = {a \in @ : a[1] # p \/ a[2] # x} \cup {<<p, x, key>>}]
NoMemo == [p \in Params |-> 0]
\* A new operation starts with an empty memo of its own.
Fresh(S) == [S EXCEPT !.memo[1] = NoMemo]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
\* A new object: what is given, else what the source says.
Make(S, f, p, kw, sc) ==
  LET src == Src(S, f, p)
      given == DOMAIN kw
      fromScenario == {x \in DOMAIN src : src[x] = Ref /\ x \notin given}
  IN [p |-> p, sc |-> IF fromScenario = {} THEN 0 ELSE sc,
      f |-> [x \in (DOMAIN src \cup given) \ fromScenario |-> IF x \in given THEN kw[x] ELSE S.set[src[x]]]]
RECURSIVE Build(_, _, _, _, _)
Get(S, f, p, m) == IF S.own[f][p] # 0 THEN [S |-> S, id |-> S.own[f][p]] ELSE Build(S, f, p, <<>>, m)
Build(S, f, p, kw, m) ==
  IF S.memo[m][p] # 0 THEN [S |-> S, id |-> S.memo[m][p]]
  ELSE LET src == Src(S, f, p)
           r == IF \E x \in DOMAIN src : src[x] = Ref THEN Get(S, f, Scenario, m) ELSE [S |-> S, id |-> 0]
           T == r.S
           n == Len(T.obj) + 1
       IN [S |-> [T EXCEPT !.obj = Append(@, Make(T, f, p, kw, r.id)), !.memo[m][p] = n], id |-> n]
\* Explicit parameters.
SetParam(S, f, p, kw, m) == LET r == Build(IF m = 1 THEN Fresh(S) ELSE S, f, p, kw, m) IN [S |-> [r.S EXCEPT !.own[f][p] = r.id], id |-> r.id]
Give(S, f, p, fields) ==
  LET n == Len(S.obj) + 1
  IN [S |-> [S EXCEPT !.obj = Append(@, [p |-> p, f |-> fields, sc |-> 0]), !.own[f][p] = n], id |-> n]
Unset(S, f, p) == [S EXCEPT !.own[f][p] = 0]
\* The parameters of a run, in the order of Needed.
RECURSIVE Gather(_, _, _, _)
Gather(S, f, i, ids) == IF i > Len(Needed) THEN [S |-> S, ids |-> ids]
                        ELSE LET r == Get(S, f, Needed[i], 1) IN Gather(r.S, f, i + 1, Append(ids, r.id))
Plan(S, f) == Gather(Fresh(S), f, 1, <<>>)
\* What an object amounts to.
Content(S, k) == [f |-> S.obj[k].f, sc |-> IF S.obj[k].sc = 0 THEN <<>> ELSE S.obj[S.obj[k].sc].f]

\* --- copies ----------------------------------------------------------------------
RECURSIVE Reach(_, _)
Reach(H, R) == LET N == R \cup UNION {UNION {H[i].rel[x] : x \in DOMAIN H[i].rel} : i \in R}
               IN IF N = R THEN R ELSE Reach(H, N)
\* A copy of everything that can be reached from the roots.
CopyMap(H, R) == LET n == Cardinality(DOMAIN H) IN [i \in Reach(H, R) |-> n + i]
CopyOf(H, c) == [j \in {c[i] : i \in DOMAIN c} |->
   LET i == CHOOSE x \in DOMAIN c : c[x] = j
   IN [H[i] EXCEPT !.rel = [x \in DOMAIN @ |-> {c[y] : y \in @[x]}]]]
Edges(H, D) == UNION {UNION {{<<i, x, y>> : y \in H[i].rel[x]} : x \in DOMAIN H[i].rel} : i \in D}
Isomorphic(H, K, c) == {<<c[e[1]], e[2], c[e[3]]>> : e \in Edges(H, DOMAIN c)} = Edges(K, DOMAIN K)
                       /\ \A i \in DOMAIN c : K[c[i]].k = H[i].k
=============================================================================
