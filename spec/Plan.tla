-------------------------------- MODULE Plan --------------------------------
(***************************************************************************)
(* Registered plans (C06): the accounts of one kind and contributor share  *)
(* contribution room, which accrues and rolls over once a year.            *)
(*                                                                         *)
(* A plan is [kind, room, given]: given is year -> room as the user has    *)
(* it.  State P: year; plans: key -> plan; of: account -> key; tx:         *)
(* account -> this year's transactions (time -> value).                    *)
(* Law K: accrual (rate of income), max (table), last (age), tfsa (table), *)
(* step, eligible (age); F(t, b): indexation from year b to t.             *)
(***************************************************************************)
EXTENDS Account, Tax, Sequences
InPlan(P, k) == {a \in DOMAIN P.of : P.of[a] = k}
PlanIn(P, k) == LET S == InPlan(P, k) IN RSumOver([a \in S |-> Inflow(P.tx[a])], S)
PlanOut(P, k) == LET S == InPlan(P, k) IN RSumOver([a \in S |-> Outflow(P.tx[a])], S)
Left(P, k) == RMax("0", RSub(P.plans[k].room, PlanIn(P, k)))
\* Nearest multiples of n (two of them half way between).
Rounded(x, n) == LET q == RFloor(RDiv(x, n)) IN
  {RMul(m, n) : m \in {m \in {q, RAdd(q, "1")} : RLeC(RAbs(RSub(m, RDiv(x, n))), "1/2")}}
\* What a year adds to the room, of a contributor of that age.
TfsaAccrual(K, F(_, _), y, age) ==
  IF RToInt(K.eligible) > age THEN {"0"}
  ELSE IF RInt(y) \in DOMAIN K.tfsa THEN {K.tfsa[RInt(y)]}
  ELSE LET b == CHOOSE b \in YearsOf(K.tfsa) : \A c \in YearsOf(K.tfsa) : b <= c
       IN UNION {Rounded(RMul(base, F(y, b)), K.step) : base \in Rounded(K.tfsa[RInt(b)], K.step)}
RrspAccrual(K, F(_, _), y, income) == RMin(RMul(income, K.accrual), Indexed(K.max, F, y))
\* The rooms possible next year; age: the contributor's age next year, income:
\* this year's.
NextRoom(P, k, K, F(_, _), age, income) ==
  LET p == P.plans[k]  y == P.year + 1 IN
  IF RInt(y) \in DOMAIN p.given THEN {p.given[RInt(y)]}
  ELSE IF p.kind = "rrsp"
  THEN IF age > RToInt(K.last) THEN {"0"}
       ELSE {RAdd(RrspAccrual(K, F, y, income), RSub(p.room, PlanIn(P, k)))}
  ELSE {RAdd(x, RSub(p.room, RAdd(PlanIn(P, k), PlanOut(P, k)))) : x \in TfsaAccrual(K, F, y, age)}
\* The room a tax-free plan starts with when none is given: that of the latest
\* earlier year the user gave, or none before the contributor was eligible,
\* and the accruals since.
RECURSIVE Accrued(_, _, _, _, _)
Accrued(K, F(_, _), y, until, born) ==
  IF y > until THEN {"0"}
  ELSE {RAdd(x, r) : x \in TfsaAccrual(K, F, y, y - born), r \in Accrued(K, F, y + 1, until, born)}
FirstRoom(given, K, F(_, _), y, born) ==
  LET past == {k \in YearsOf(given) : k < y}
      b == CHOOSE b \in YearsOf(K.tfsa) : \A c \in YearsOf(K.tfsa) : b <= c
  IN IF past = {} THEN Accrued(K, F, b, y, born)
     ELSE LET m == CHOOSE m \in past : \A n \in past : n <= m
          IN {RAdd(given[RInt(m)], r) : r \in Accrued(K, F, m + 1, y, born)}
Advance(P, rooms) == [P EXCEPT !.year = @ + 1, !.tx = [a \in DOMAIN @ |-> NoTx],
                               !.plans = [k \in DOMAIN @ |-> [@[k] EXCEPT !.room = rooms[k]]]]
=============================================================================
