------------------------------ MODULE C10Trace ------------------------------
EXTENDS TraceBase, Household
\* setup: people (ids), price; the state keeps the jurisdictions and the
\* facts of every person and year.
Init0(s) == [js |-> <<>>, price |-> <<>>, facts |-> <<>>]
R(s, bad) == [st |-> s, bad |-> bad]
Near(f, g) == /\ Cardinality(DOMAIN f) = Cardinality(DOMAIN g)
              /\ \A t \in DOMAIN g : \E u \in DOMAIN f : RClose(t, u) /\ RClose(g[t], f[u])
Extra(x, p) == IF p \in DOMAIN x THEN x[p] ELSE "0"
Step(s, e) ==
  LET F(t, b) == RDiv(s.price[RInt(t)], s.price[RInt(b)])
      J == IF e.ev \in {"tables", "facts"} THEN {} ELSE IF e.j = 0 THEN DOMAIN s.js ELSE {e.j}
      SumJ(T(_)) == RSumOver([j \in J |-> T(j)], J)
      Ps == {e.group[i] : i \in DOMAIN e.group}
      X(j, p) == [ded |-> Extra(e.ded[j], p), cred |-> Extra(e.cred[j], p)]
      Bs == [i \in DOMAIN s.js |-> Brackets(s.js[i].tab, F, e.y)]
  IN
  CASE e.ev = "tables" -> R([s EXCEPT !.js = e.js, !.price = e.price], {})
    [] e.ev = "facts" -> R([s EXCEPT !.facts = (RInt(e.y) :> e.facts) @@ @],
          UNION {LET f == e.facts[p] IN
             Clause("taxable-income", RClose(f.taxable, Taxable(f)))
             \cup Clause("deductions", RClose(f.ded, Deduction(f)))
             \cup Clause("credits", RClose(f.cred, Credit(f))) : p \in DOMAIN e.facts})
    [] e.err # "ok" -> R(s, {"error-" \o e.ev})
    [] e.ev = "group" -> R(s,
          LET T(j) == RSumOver([p \in Ps |-> PersonTax(s.js[j], F, e.y, s.facts[RInt(e.y)][p], X(j, p))], Ps)
          IN Clause("sum-of-parts", RClose(e.out, SumJ(T))))
    [] e.ev = "money" -> R(s,
          LET T(j) == MoneyTax(s.js[j], F, e.y, e.x, [ded |-> e.ded[j], cred |-> e.cred[j]])
          IN Clause("money-tax", RClose(e.out, SumJ(T))))
    [] e.ev = "couples" -> R(s,
          LET sp == [p \in {e.spouses[i].p : i \in DOMAIN e.spouses} |-> e.spouses[CHOOSE i \in DOMAIN e.spouses : e.spouses[i].p = p].s]
              got == {{e.out[i][1], e.out[i][2]} : i \in DOMAIN e.out}
          IN Clause("couples-together", got = Couples(Ps, sp))
             \cup Clause("couples-once", Len(e.out) = Cardinality(Couples(Ps, sp))))
    [] e.ev = "combined" -> R(s, Clause("combined-brackets", Near(e.out, Combined(Bs))))
    [] e.ev = "combined1" -> R(s, Clause("combined-bracket", Near(e.out, Combined(Bs))))
    [] e.ev = "accum" -> R(s, Clause("combined-accum", Near(e.out, [b \in DOMAIN Combined(Bs) |-> TaxOn(Combined(Bs), b)])))
    [] e.ev = "rate" -> R(s, Clause("combined-marginal-rate",
          RClose(e.out, RSumSeq([i \in DOMAIN Bs |-> Bs[i][MarginalBracket(Bs[i], e.x)]]))))
    [] e.ev = "pd" -> R(s, Clause("first-deduction", RClose(e.out, RAdd(PersonalDeduction(s.js[1], F, e.y),
          Deduction(s.facts[RInt(e.y)][e.group[1]])))))
    \* The figures an assessment uses; of several jurisdictions, the first's
    \* (and the highest of their brackets).
    [] e.ev = "reliefs" -> R(s,
          LET j == IF e.j = 0 THEN 1 ELSE e.j  f == s.facts[RInt(e.y)][e.group[1]] IN
          Clause("person-deduction", RClose(e.deduction, RAdd(PersonalDeduction(s.js[j], F, e.y), Deduction(f))))
          \cup Clause("person-credit", RClose(e.credit, Credit(f)))
          \cup Clause("credit-rate", RClose(e.rate, CreditRate(s.js[j], e.y)))
          \cup Clause("personal-deduction", RClose(e.personal, PersonalDeduction(s.js[j], F, e.y)))
          \cup Clause("marginal-bracket", RClose(e.bracket, RMaxSet({MarginalBracket(Bs[i], e.x) : i \in J}))))
    [] e.ev = "input" -> R(s, Clause("arguments-unchanged", e.same))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
