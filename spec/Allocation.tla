----------------------------- MODULE Allocation -----------------------------
(***************************************************************************)
(* Asset allocation (C20).  A strategy is a record                         *)
(*   kind     "n-age", "transition" or "fixed" (a user's own strategy)     *)
(*   target, min, max       percentages (n-age: the number n)              *)
(*   std, period            standard retirement age, transition period     *)
(*   adjust                 follow the person's own retirement age         *)
(*   fixed                  [stocks, bonds, other] for "fixed"             *)
(***************************************************************************)
EXTENDS Rat
All(s) == [stocks |-> s, bonds |-> RSub("1", s), other |-> "0"]
Effective(p, ret) == IF p.adjust THEN ret ELSE p.std
\* Someone who retires late is treated as younger.
NAge(p, age, ret) == RDiv(RSub(p.target, RAdd(age, RSub(p.std, Effective(p, ret)))), "100")
Transition(p, age, ret) ==
  LET r == Effective(p, ret) IN
  IF RLe(age, RSub(r, p.period)) THEN p.max
  ELSE IF RLe(r, age) THEN RMax(p.min, p.target)
  ELSE RAdd(p.target, RMul(RSub(p.max, p.target), RDiv(RSub(r, age), p.period)))
Named(p, age, ret) == CASE p.kind = "n-age" -> All(NAge(p, age, ret))
                        [] p.kind = "transition" -> All(Transition(p, age, ret))
                        [] p.kind = "fixed" -> p.fixed
Clamp(x, lo, hi) == RMin(hi, RMax(lo, x))
\* Stocks within bounds; the rest share what remains as they shared before.
Balance(a, lo, hi) ==
  LET s == Clamp(a.stocks, lo, hi)
      rest == RAdd(a.bonds, a.other)
      free == RSub("1", s)
  IN IF REq(s, a.stocks) THEN a
     ELSE IF RZero(rest) THEN [stocks |-> s, bonds |-> free, other |-> "0"]
     ELSE [stocks |-> s, bonds |-> RMul(free, RDiv(a.bonds, rest)), other |-> RMul(free, RDiv(a.other, rest))]
Allocate(p, age, ret) == Balance(Named(p, age, ret), p.min, p.max)
Total(a) == RAdd(a.stocks, RAdd(a.bonds, a.other))
\* Return of a portfolio: the mean of the returns weighted by the shares.
Return(a, rs) == RDiv(RAdd(RMul(a.stocks, rs.stocks), RAdd(RMul(a.bonds, rs.bonds), RMul(a.other, rs.other))), Total(a))
Feasible(a, p) == /\ RClose(Total(a), "1") /\ RLeC(p.min, a.stocks) /\ RLeC(a.stocks, p.max)
=============================================================================
