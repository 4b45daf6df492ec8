----------------------------- MODULE Household -----------------------------
(***************************************************************************)
(* Tax of a group of people (C10).                                         *)
(* A jurisdiction is [tab, ded, rate] (see Tax).  The facts of a person in *)
(* a year are [gross, own, accounts]: accounts is a sequence of [taxable,  *)
(* ded, cred] and own the figures the user gave for the person (a function *)
(* from some of "taxable", "ded", "cred").                                 *)
(***************************************************************************)
EXTENDS Tax, Sequences
Sum(accounts, k) == RSumSeq([i \in DOMAIN accounts |-> accounts[i][k]])
Own(f, k, x) == IF k \in DOMAIN f.own THEN f.own[k] ELSE x
Taxable(f) == Own(f, "taxable", RAdd(f.gross, Sum(f.accounts, "taxable")))
Deduction(f) == Own(f, "ded", Sum(f.accounts, "ded"))
Credit(f) == Own(f, "cred", Sum(f.accounts, "cred"))
PersonalDeduction(j, F(_, _), y) == IF DOMAIN j.ded = {} THEN "0" ELSE Indexed(j.ded, F, y)
CreditRate(j, y) == IF DOMAIN j.rate = {} THEN "1" ELSE Unindexed(j.rate, y)
\* x = [ded, cred]: reliefs passed to the assessment.
PersonTax(j, F(_, _), y, f, x) ==
  Owing(Brackets(j.tab, F, y), Taxable(f),
        RAdd(PersonalDeduction(j, F, y), RAdd(Deduction(f), x.ded)),
        RAdd(Credit(f), x.cred), CreditRate(j, y))
MoneyTax(j, F(_, _), y, amount, x) == Owing(Brackets(j.tab, F, y), amount, x.ded, x.cred, CreditRate(j, y))
\* Couples assessed together when a group is assessed.
Couples(group, spouse) == {{p, spouse[p]} : p \in {q \in group : spouse[q] \in group}}
\* --- the combined brackets of several jurisdictions -------------------------
RateAt(B, x) == LET L == {b \in DOMAIN B : RLe(b, x)} IN IF L = {} THEN "0" ELSE B[RMaxSet(L)]
Combined(Bs) == LET K == UNION {DOMAIN Bs[i] : i \in DOMAIN Bs} IN
  [k \in K |-> RSumSeq([i \in DOMAIN Bs |-> RateAt(Bs[i], k)])]
=============================================================================
