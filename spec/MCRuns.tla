------------------------------- MODULE MCRuns -------------------------------
(* Two forecasters that share their settings and what they are run on: every *)
(* short history of changes, explicit parameters and runs.                   *)
EXTENDS Runs, Json
CONSTANTS Depth, Size, Emit
VARIABLES S, H, V, last, runs, hist
vars == <<S, H, V, last, runs, hist>>
SetKeys == {"initial_year", "num_years", "inflation", "stock_return", "bond_return", "other_return", "management_fees",
            "living_expenses_strategy", "living_expenses_base_amount", "living_expenses_rate", "saving_strategy", "saving_weights",
            "withdrawal_strategy", "withdrawal_weights", "allocation_strategy", "allocation_target", "allocation_min_equity",
            "allocation_max_equity", "allocation_std_retirement_age", "allocation_risk_trans_period", "allocation_adjust_retirement",
            "tax_brackets", "tax_personal_deduction", "tax_credit_rate", "tax_payment_timing", "tax_province"}
\* Person 1 with spouse 2; accounts 3 (of 1) and 4 (of 2), linked by record 5 held by 1.
None == {}
Heap0 == [i \in 1..5 |-> CASE i = 1 -> [k |-> "person", val |-> 0, rel |-> [spouse |-> {2}, accounts |-> {3}, data |-> {5}]]
                           [] i = 2 -> [k |-> "person", val |-> 0, rel |-> [spouse |-> {1}, accounts |-> {4}, data |-> None]]
                           [] i = 3 -> [k |-> "account", val |-> 0, rel |-> [owner |-> {1}, link |-> {5}]]
                           [] i = 4 -> [k |-> "account", val |-> 0, rel |-> [owner |-> {2}, link |-> {5}]]
                           [] i = 5 -> [k |-> "record", val |-> 0, rel |-> [group |-> {3, 4}]]]
Init == /\ S = [set |-> [k \in SetKeys |-> "0"], own |-> [f \in 1..2 |-> [p \in Params |-> 0]], memo |-> [m \in 1..2 |-> NoMemo],
                obj |-> <<>>, kind |-> <<"base", "canada">>, alt |-> [f \in 1..2 |-> {}]]
        /\ H = Heap0 /\ V = Heap0 /\ last = <<>> /\ runs = {} /\ hist = <<>>
Keys == {"inflation", "living_expenses_base_amount"} \cup IF Size = 0 THEN {} ELSE {"saving_weights"}
Set == \E k \in Keys : /\ S' = [S EXCEPT !.set[k] = IF @ = "0" THEN "1" ELSE "0"]
                       /\ hist' = Append(hist, <<"set", k>>) /\ UNCHANGED <<H, V, last, runs>>
Offers(p) == CASE p = Scenario -> {<<>>, [inflation |-> "7"]}
               [] p = Living -> {<<>>, [base_amount |-> "7"], [inflation_adjust |-> "7"]}
               [] p = Taxes -> {<<>>}
               [] OTHER -> {}
Assign == \E f \in 1..2, p \in Params : \E kw \in Offers(p) :
  /\ S' = SetParam(S, f, p, kw, 1).S /\ hist' = Append(hist, <<"assign", f, p, kw>>) /\ UNCHANGED <<H, V, last, runs>>
\* A strategy that refers to one of the user's accounts by name.
Name == \E f \in 1..2 : S.own[f][Saving] = 0 /\ S' = Give(S, f, Saving, [strategy |-> "named"]).S
  /\ hist' = Append(hist, <<"give", f, Saving>>) /\ UNCHANGED <<H, V, last, runs>>
Turn == \E f \in 1..2 : S' = Redirect(S, f, Living, "base_amount", "inflation")
  /\ hist' = Append(hist, <<"default", f>>) /\ UNCHANGED <<H, V, last, runs>>
Clear == \E f \in 1..2, p \in Params : S.own[f][p] # 0 /\ S' = Unset(S, f, p)
  /\ hist' = Append(hist, <<"clear", f, p>>) /\ UNCHANGED <<H, V, last, runs>>
BuildM == \E p \in {Scenario, Living, Taxes}, m \in 1..2 : \E f \in (IF Size = 0 THEN {1} ELSE 1..2) :
  /\ S' = Build(IF m = 1 THEN Fresh(S) ELSE S, f, p, <<>>, m).S
  /\ hist' = Append(hist, <<"build", f, p, m>>) /\ UNCHANGED <<H, V, last, runs>>
\* The user changes the originals.
Edit == \E i \in {1, 3} : H' = [H EXCEPT ![i].val = (@ + 1) % 2] /\ V' = H'
  /\ hist' = Append(hist, <<"edit", i>>) /\ UNCHANGED <<S, last, runs>>
\* A run changes every copy it makes, by amounts that its parameters decide.
Step(K, r, c) == [j \in DOMAIN K |-> [K[j] EXCEPT !.val = @ + 10 + (IF r.S.obj[r.ids[3]].f.strategy = "named" /\ j = c[3] THEN 100 ELSE 0)]]
Run == \E f \in 1..2 :
  LET r == Plan(S, f)
      c == CopyMap(H, {1, 2, 3, 4})
      K == Step(CopyOf(H, c), r, c)
      eff == [i \in 1..5 |-> Content(r.S, r.ids[i])]
      all == H @@ K
  IN /\ S' = r.S /\ H' = [i \in DOMAIN H |-> all[i]] /\ UNCHANGED V
     /\ last' = [f |-> f, ids |-> r.ids, K |-> K, c |-> c, before |-> S]
     /\ runs' = runs \cup {<<eff, S.kind[f], [i \in DOMAIN H |-> H[i].val], [i \in DOMAIN c |-> K[c[i]].val]>>}
     /\ hist' = Append(hist, <<"run", f>>)
Next == Len(hist) < Depth /\ (Set \/ Assign \/ Name \/ Turn \/ Clear \/ BuildM \/ Edit \/ Run)
Spec == Init /\ [][Next]_vars
\* What the user supplied is as the user left it.
Untouched == H = V
CopiesRelated == last # <<>> => /\ Isomorphic(Heap0, last.K, last.c) /\ DOMAIN last.K \cap DOMAIN H = {}
\* Explicit parameters are used; everything else comes from the settings at that time.
Resolved == last # <<>> => \A i \in DOMAIN Needed :
   LET o == last.before.own[last.f][Needed[i]]
       x == S.obj[last.ids[i]]
       src == Src(last.before, last.f, Needed[i])
   IN IF o # 0 THEN last.ids[i] = o ELSE \A y \in DOMAIN x.f : x.f[y] = last.before.set[src[y]]
\* Parts built for a run share its scenario.
Shared == last # <<>> => \A i \in DOMAIN Needed :
   last.before.own[last.f][Needed[i]] = 0 => S.obj[last.ids[i]].sc \in {0, last.ids[1]}
\* What is done to one forecaster's defaults is not seen by the other.
Apart == \A f \in 1..2 : S.alt[f] # {} => \E i \in DOMAIN hist : hist[i] = <<"default", f>>
Repeatable == \A a, b \in runs : (a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3]) => a[4] = b[4]
EmitAll == (Emit /\ Len(hist) = Depth) => PrintT(<<"GEN", ToJson([hist |-> hist])>>)
=============================================================================
