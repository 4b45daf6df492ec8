------------------------------- MODULE Canada -------------------------------
(***************************************************************************)
(* Canadian tax: two jurisdictions, each with a pension credit and a       *)
(* spousal credit (C11).  A jurisdiction is a Household jurisdiction with  *)
(* the tables `pension` and `spousal`; the facts of a person also have     *)
(* `spouse` (an id or "none") and `wd`, the year's transactions of their   *)
(* retirement accounts.  fs maps every person to their facts of the year.  *)
(***************************************************************************)
EXTENDS Household
Withdrawn(f) == RNeg(RSumSeq([i \in DOMAIN f.wd |-> RMin(f.wd[i], "0")]))
PensionCredit(j, F(_, _), y, f) == RMin(Withdrawn(f), Indexed(j.pension, F, y))
Net(j, F(_, _), y, f) == RSub(Taxable(f), RAdd(PersonalDeduction(j, F, y), Deduction(f)))
\* The spousal amount less the spouse's income, between nothing and the amount.
SpousalAmount(j, F(_, _), y, f) ==
  LET m == Indexed(j.spousal, F, y) IN RMax("0", RSub(m, RMax("0", Net(j, F, y, f))))
Married(fs, p) == fs[p].spouse # "none"
Tied(j, F(_, _), y, fs) ==
  {p \in DOMAIN fs : Married(fs, p) /\ RClose(Net(j, F, y, fs[p]), Net(j, F, y, fs[fs[p].spouse]))}
\* Who gets the credit: the one with more income; of two with the same income,
\* either, but not both.
Winners(j, F(_, _), y, fs) ==
  LET T == Tied(j, F, y, fs)
      sure == {p \in DOMAIN fs \ T : Married(fs, p) /\ RLt(Net(j, F, y, fs[fs[p].spouse]), Net(j, F, y, fs[p]))}
  IN {sure \cup W : W \in {V \in SUBSET T : \A p \in T : (p \in V) # (fs[p].spouse \in V)}}
CanadaCredit(j, F(_, _), y, fs, W, p) ==
  RAdd(Credit(fs[p]), RAdd(PensionCredit(j, F, y, fs[p]),
       IF p \in W THEN SpousalAmount(j, F, y, fs[fs[p].spouse]) ELSE "0"))
CanadaTax(j, F(_, _), y, fs, W, p, x) ==
  Owing(Brackets(j.tab, F, y), Taxable(fs[p]),
        RAdd(PersonalDeduction(j, F, y), RAdd(Deduction(fs[p]), x.ded)),
        RAdd(CanadaCredit(j, F, y, fs, W, p), x.cred), CreditRate(j, y))
=============================================================================
