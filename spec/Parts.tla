-------------------------------- MODULE Parts --------------------------------
(***************************************************************************)
(* The parts of a forecast (C17): income, living expenses, saving,         *)
(* withdrawal and tax, called in turn on a pool of cash.  Store 1 of the   *)
(* state W (module Moves) is the cash; the others are accounts and debts.  *)
(* Parts are numbered 1 (income) to 5 (tax).                               *)
(*                                                                         *)
(* A person is [gross, withheld, net, w: the payment schedule, as pairs].  *)
(* A plan is a sequence of [k: store, txs: pairs of time and flow], in the *)
(* order in which the stores' turns come.                                  *)
(***************************************************************************)
EXTENDS Moves
LOCAL INSTANCE FiniteSets
INCOME == 1  LIVING == 2  SAVING == 3  WITHDRAWAL == 4  TAX == 5
CASH == 1
MvP(p, v, w, f, t) == [p |-> p, v |-> v, w |-> w, from |-> f, to |-> t, strict |-> FALSE]
SumField(s, f(_)) == RSumSeq([i \in DOMAIN s |-> f(s[i])])
PlanSum(plan, K) == RSumSeq([i \in DOMAIN plan |->
   IF plan[i].k \in K THEN RSumSeq([j \in DOMAIN plan[i].txs |-> plan[i].txs[j][2]]) ELSE "0"])
NetOf(people) == SumField(people, LAMBDA x : x.net)
CashSum(W) == StoreBalance(W.stores[CASH], "1")

\* --- what each part does, as a sequence of movements -----------------------
\* People are in no particular order.
Orders(n) == {o \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => o[i] # o[j]}
IncomeMoves(people) ==
  {[i \in DOMAIN people |-> MvP(INCOME, people[o[i]].net, people[o[i]].w, 0, CASH)] : o \in Orders(Len(people))}
\* Expenses are shared in proportion to net income; equally if there is none.
ShareOf(people, i) ==
  LET s == NetOf(people) IN
  IF RPos(s) THEN RDiv(people[i].net, s) ELSE RDiv("1", RInt(Len(people)))
\* Whenever anyone is paid.
PaidAt(people) == UNION {{people[i].w[j][1] : j \in DOMAIN people[i].w} : i \in DOMAIN people}
PartAt(x, t) == LET W(K) == RSumSeq([j \in DOMAIN x.w |-> IF x.w[j][1] \in K THEN x.w[j][2] ELSE "0"])
                IN RDiv(W({t}), W(PaidAt(<<x>>)))
LivingMoves(people, living) ==
  LET k == RSortSet(PaidAt(people))
      at(t) == RSumSeq([i \in DOMAIN people |-> RMul(RMul(living, ShareOf(people, i)), PartAt(people[i], t))])
  IN {[n \in DOMAIN k |-> MvP(LIVING, at(k[n]), <<<<k[n], "1">>>>, CASH, 0)]}
EntryMoves(p, x) == Grouped([j \in DOMAIN x.txs |-> MvP(p, x.txs[j][2], <<<<x.txs[j][1], "1">>>>, CASH, x.k)])
RECURSIVE PlanMoves(_, _)
PlanMoves(p, plan) == IF plan = <<>> THEN <<>> ELSE EntryMoves(p, Head(plan)) \o PlanMoves(p, Tail(plan))
\* Withdrawals, and the tax withheld on each account's, which leaves the cash
\* in proportion to the withdrawals.  held: store -> tax withheld this call.
WithholdMoves(x, h) ==
  IF RZero(h) THEN <<>>
  ELSE LET s == RSumSeq([j \in DOMAIN x.txs |-> RAbs(x.txs[j][2])])
       IN Grouped([j \in DOMAIN x.txs |-> MvP(WITHDRAWAL, RNeg(RDiv(RMul(h, RAbs(x.txs[j][2])), s)), <<<<x.txs[j][1], "1">>>>, 0, CASH)])
RECURSIVE TakeMoves(_, _)
TakeMoves(plan, held) ==
  IF plan = <<>> THEN <<>>
  ELSE EntryMoves(WITHDRAWAL, Head(plan)) \o WithholdMoves(Head(plan), held[Head(plan).k]) \o TakeMoves(Tail(plan), held)
\* The possible sequences of movements of part p, given what it found: d has
\* people, living, plan and held.
PartMoves(p, d) ==
  CASE p = INCOME -> IncomeMoves(d.people)
    [] p = LIVING -> LivingMoves(d.people, d.living)
    [] p = SAVING -> {PlanMoves(SAVING, d.plan)}
    [] p = WITHDRAWAL -> {TakeMoves(d.plan, d.held)}
    [] p = TAX -> {<<>>}
CallPart(W, p, d, T) == UNION {Call(W, p, mvs, T) : mvs \in PartMoves(p, d)}

\* --- what each part reports --------------------------------------------------
\* found: the cash the part found; K: [retire, debts, assets] sets of stores.
HeldSum(d) == RSum(d.held)
Reports(p, d, found, K) ==
  CASE p = INCOME -> [gross_income |-> SumField(d.people, LAMBDA x : x.gross),
                      tax_withheld |-> SumField(d.people, LAMBDA x : x.withheld),
                      net_income |-> NetOf(d.people), carryover |-> found]
    [] p = LIVING -> [living_expenses |-> d.living]
    [] p = SAVING -> [total |-> PlanSum(d.plan, K.retire \cup K.debts),
                      retirement_savings |-> PlanSum(d.plan, K.retire),
                      debt_repayment |-> PlanSum(d.plan, K.debts)]
    [] p = WITHDRAWAL -> [gross_withdrawals |-> RNeg(PlanSum(d.plan, K.assets)),
                          tax_withheld |-> RNeg(HeldSum(d)),
                          net_withdrawals |-> RSub(RNeg(PlanSum(d.plan, K.assets)), HeldSum(d))]
    [] p = TAX -> [tax_withheld |-> RAdd(SumField(d.people, LAMBDA x : x.withheld), RSum(d.accheld)),
                   tax_owing |-> d.owing,
                   tax_adjustment |-> RSub(RAdd(SumField(d.people, LAMBDA x : x.withheld), RSum(d.accheld)), d.owing)]
\* The change in cash that a report amounts to.
NetFigure(p, r) ==
  CASE p = INCOME -> r.net_income
    [] p = LIVING -> RNeg(r.living_expenses)
    [] p = SAVING -> RNeg(r.total)
    [] p = WITHDRAWAL -> r.net_withdrawals
    [] p = TAX -> "0"
\* Money is only saved out of a surplus, and only withdrawn for a shortfall.
MayPlan(p, found) == IF p = SAVING THEN RPos(found) ELSE RIsNeg(found)
\* What part p has moved into and out of stores K.
MovedInto(W, p, K) == RSum([k \in K |-> RSum(RecOf(W.recs[p], k))])
=============================================================================
