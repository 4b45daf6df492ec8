------------------------------ MODULE Expenses ------------------------------
(***************************************************************************)
(* Living expenses (C19).                                                  *)
(* A rule is [rule, base, rate, real]: its name, base amount, rate and     *)
(* whether its amounts are indexed.  h maps each year (a string) to the    *)
(* household's totals [gross, net, principal] for that year; F(t, b) is    *)
(* the indexation from year b to year t and first the first year of the    *)
(* plan.                                                                   *)
(***************************************************************************)
EXTENDS Rat, Integers
Rules == {"Constant contribution", "Constant living expenses", "Percentage of net income", "Percentage of gross income",
          "Percentage of earnings growth", "Percentage of principal at retirement",
          "Percentage of net income at retirement", "Percentage of gross income at retirement"}
Raw(r, h, F(_, _), first, y, ret) ==
  LET now == h[RInt(y)]
      Fx(t, b) == IF r.real THEN F(t, b) ELSE "1"
      base == RMul(r.base, Fx(y, first))
      then == h[RInt(ret)]
      AtRet(x) == RMul(r.rate, RMul(x, Fx(y, ret)))
  IN CASE r.rule = "Constant contribution" -> RSub(now.net, base)
       [] r.rule = "Constant living expenses" -> base
       [] r.rule = "Percentage of net income" -> RMul(r.rate, now.net)
       [] r.rule = "Percentage of gross income" -> RMul(r.rate, now.gross)
       [] r.rule = "Percentage of earnings growth" -> RAdd(base, RMul(RSub(now.net, base), r.rate))
       [] r.rule = "Percentage of principal at retirement" -> AtRet(then.principal)
       [] r.rule = "Percentage of net income at retirement" -> AtRet(then.net)
       [] r.rule = "Percentage of gross income at retirement" -> AtRet(then.gross)
Spend(r, h, F(_, _), first, y, ret) == RMax("0", Raw(r, h, F, first, y, ret))
\* A schedule: [working, retirement, minimum], the last possibly <<>>; ret is
\* 0 while no retirement year is known.  The minimum is a rule, or a schedule
\* of its own (without a minimum).
Phase(s, y, ret) == IF ret # 0 /\ y > ret THEN s.retirement ELSE s.working
Known(y, ret) == IF ret = 0 THEN y ELSE ret
Least(m, h, F(_, _), first, y, ret) ==
  Spend(IF "working" \in DOMAIN m THEN Phase(m, y, ret) ELSE m, h, F, first, y, Known(y, ret))
Planned(s, h, F(_, _), first, y, ret) ==
  LET x == Spend(Phase(s, y, ret), h, F, first, y, Known(y, ret))
  IN IF s.minimum = <<>> THEN x ELSE RMax(x, Least(s.minimum[1], h, F, first, y, ret))
=============================================================================
