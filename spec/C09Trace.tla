------------------------------ MODULE C09Trace ------------------------------
EXTENDS TraceBase, Tax
\* setup: tab, ded, rate (tables; ded and rate may be empty), price, real
Init0(s) == s
R(s, bad) == [st |-> s, bad |-> bad]
Near(f, g) == /\ Cardinality(DOMAIN f) = Cardinality(DOMAIN g)
              /\ \A t \in DOMAIN g : \E u \in DOMAIN f : RClose(t, u) /\ RClose(g[t], f[u])
Step(s, e) ==
  LET F(t, b) == IF s.real THEN "1" ELSE RDiv(s.price[RInt(t)], s.price[RInt(b)])
      B == Brackets(s.tab, F, e.y)
      Ded == IF DOMAIN s.ded = {} THEN "0" ELSE Indexed(s.ded, F, e.y)
      CR == IF DOMAIN s.rate = {} THEN "1" ELSE Unindexed(s.rate, e.y)
      Eps(x) == RMul("1/1000000000", RMax("1", RAbs(x)))
      Bra(x) == {MarginalBracket(B, x), MarginalBracket(B, RAdd(x, Eps(x))), MarginalBracket(B, RSub(x, Eps(x)))}
  IN
  CASE e.ev = "tables" -> R([s EXCEPT !.tab = e.tab, !.ded = e.ded, !.rate = e.rate, !.price = e.price], {})
    [] e.err # "ok" -> R(s, {"error-" \o e.ev})
    \* Brackets of one more year (they count as given from then on).
    [] e.ev = "add" -> R([s EXCEPT !.tab = (RInt(e.y) :> e.b) @@ @], {})
    [] e.ev = "brackets" -> R(s, Clause("brackets", Near(e.out, B)))
    [] e.ev = "accum" -> R(s, Clause("accumulated-tax", Near(e.out, [b \in DOMAIN B |-> TaxOn(B, b)])))
    [] e.ev = "deduction" -> R(s, Clause("personal-deduction", RClose(e.out, Ded)))
    [] e.ev = "credit_rate" -> R(s, Clause("credit-rate", RClose(e.out, CR)))
    [] e.ev = "marginal" -> R(s, Clause("marginal-bracket", \E b \in Bra(e.x) : RClose(b, e.out))
                                \cup Clause("marginal-rate", \E b \in Bra(e.x) : RClose(B[b], e.rate) /\ RClose(b, e.out)))
    [] e.ev = "tax" -> R(s, Clause("tax", RClose(e.out, Owing(B, e.x, e.ded, e.cred, CR)))
                            \cup Clause("never-negative", RLe("0", e.out))
                            \cup Clause("none-without-income", RLe(e.x, "0") => RZero(e.out)))
    [] e.ev = "order" -> R(s, Clause("increasing", RLe(e.x1, e.x2) => RLeC(e.out1, e.out2)))
    [] e.ev = "input" -> R(s, Clause("tables-unchanged", e.same))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
