------------------------------ MODULE C11Trace ------------------------------
EXTENDS TraceBase, Canada
Init0(s) == [js |-> <<>>, price |-> <<>>, facts |-> <<>>]
R(s, bad) == [st |-> s, bad |-> bad]
Extra(x, p) == IF p \in DOMAIN x THEN x[p] ELSE "0"
Step(s, e) ==
  LET F(t, b) == RDiv(s.price[RInt(t)], s.price[RInt(b)])
      J == IF e.ev \in {"tables", "facts", "input"} THEN {} ELSE IF e.j = 0 THEN DOMAIN s.js ELSE {e.j}
      Fs == s.facts[RInt(e.y)]
      X(j, p) == [ded |-> Extra(e.ded[j], p), cred |-> Extra(e.cred[j], p)]
      Win(j) == Winners(s.js[j], F, e.y, Fs)
      T(j, W, p) == CanadaTax(s.js[j], F, e.y, Fs, W, p, X(j, p))
      One(W, p) == RSumOver([j \in J |-> T(j, W[j], p)], J)
      \* one choice of winners in each jurisdiction
      Ws == {W \in [J -> UNION {Win(j) : j \in J}] : \A j \in J : W[j] \in Win(j)}
  IN
  CASE e.ev = "tables" -> R([s EXCEPT !.js = e.js, !.price = e.price], {})
    [] e.ev = "facts" -> R([s EXCEPT !.facts = (RInt(e.y) :> e.facts) @@ @], {})
    [] e.ev = "input" -> R(s, Clause("arguments-unchanged", e.same))
    [] e.err # "ok" -> R(s, {"error-" \o e.ev})
    [] e.ev = "tax" -> R(s,
          LET Ps == {e.group[i] : i \in DOMAIN e.group}
              S(W) == RSumOver([p \in Ps |-> One(W, p)], Ps)
          IN Clause(IF e.j = 0 THEN "federal-plus-provincial" ELSE "jurisdiction-tax",
                    \E W \in Ws : RClose(e.out, S(W))))
    [] e.ev = "each" -> R(s,
          Clause("each-spouse", \E W \in Ws : \A p \in DOMAIN e.outs : RClose(e.outs[p], One(W, p))))
    [] e.ev = "credits" -> R(s,
          Clause("credits", \E W \in Win(e.j) : \A p \in DOMAIN e.outs :
             RClose(e.outs[p], CanadaCredit(s.js[e.j], F, e.y, Fs, W, p))))
    [] e.ev = "money" -> R(s,
          LET M(j) == MoneyTax(s.js[j], F, e.y, e.x, [ded |-> e.ded[j], cred |-> e.cred[j]])
          IN Clause("money-tax", RClose(e.out, RSumOver([j \in J |-> M(j)], J))))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
