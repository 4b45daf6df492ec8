------------------------------ MODULE C25Trace ------------------------------
EXTENDS TraceBase, Person
\* State: ppl (id -> [birth, ret, rate, tax, inp, gross, net: by year]), sp, ow, y.
Init0(s) == [ppl |-> <<>>, sp |-> <<>>, ow |-> <<>>, y |-> s.first]
R(s, bad) == [st |-> s, bad |-> bad]
Look(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Given(p, q, y, d) == IF q \in DOMAIN p.inp THEN Look(p.inp[q], RInt(y), d) ELSE d
RateOf(p, y) == Given(p, "raise_rate", y, IF "*" \in DOMAIN p.rate THEN p.rate["*"] ELSE p.rate[RInt(y)])
\* The year's figures, from the last year's income (prev) or the first one's.
Year(p, y, gross0) ==
  LET g == Given(p, "gross_income", y, gross0)
      t == Given(p, "tax_withheld", y, IF p.tax = <<>> THEN "0" ELSE RMul(g, p.tax[RInt(y)]))
      n == Given(p, "net_income", y, RSub(g, t))
  IN [p EXCEPT !.gross = (RInt(y) :> g) @@ @, !.net = (RInt(y) :> n) @@ @, !.wh = t]
Advance(p, y) == Year(p, y, Raised(p.gross[RInt(y - 1)], RateOf(p, y), p.ret, y))
\* What everybody reports.
Agrees(f, g) == \A k \in DOMAIN f : k \in DOMAIN g /\ RClose(f[k], g[k])
Reports(s, e) ==
  Clause("year", \A p \in DOMAIN s.ppl : e.ppl[p].year = s.y)
  \cup Clause("spouse", \A p \in DOMAIN s.ppl : e.ppl[p].spouse = s.sp[p])
  \cup Clause("accounts", \A p \in DOMAIN s.ppl : {e.ppl[p].own[i] : i \in DOMAIN e.ppl[p].own} = Owned(s.ow, p)
                                                  /\ Len(e.ppl[p].own) = Cardinality(Owned(s.ow, p)))
  \cup Clause("owner", \A a \in DOMAIN s.ow : e.acc[a].owner = s.ow[a])
  \cup Clause("birth-date", \A p \in DOMAIN s.ppl : e.ppl[p].birth = s.ppl[p].birth)
  \cup Clause("retirement-date", \A p \in DOMAIN s.ppl : e.ppl[p].ret = s.ppl[p].ret)
  \cup Clause("retirement-age", \A p \in DOMAIN s.ppl : e.ppl[p].retage = Age(s.ppl[p].birth, s.ppl[p].ret))
  \cup Clause("gross-income", \A p \in DOMAIN s.ppl : Agrees(s.ppl[p].gross, e.ppl[p].gross))
  \cup Clause("net-income", \A p \in DOMAIN s.ppl : Agrees(s.ppl[p].net, e.ppl[p].net))
  \cup Clause("raise-rate", \A p \in DOMAIN s.ppl : RClose(RateOf(s.ppl[p], s.y), e.ppl[p].rate))
  \cup Clause("tax-withheld", \A p \in DOMAIN s.ppl : RClose(s.ppl[p].wh, e.ppl[p].wh))
  \cup Clause("taxable-income", \A p \in DOMAIN s.ppl : RClose(e.ppl[p].taxable,
          Given(s.ppl[p], "taxable_income", s.y,
             RAdd(s.ppl[p].gross[RInt(s.y)], RSum([a \in Owned(s.ow, p) |-> e.acc[a].taxable])))))
  \cup Clause("order", \A p, q \in DOMAIN s.ppl :

          e.gt[p][q] <=> RGt(e.ppl[p].gross[RInt(s.y)], e.ppl[q].gross[RInt(s.y)]))
Then(s, e, bad) == R(s, bad \cup Reports(s, e))
Ok(e) == e.err = "ok"
Step(s, e) ==
  CASE e.ev = "person" ->
      LET b == e.birth
          p0 == [birth |-> b, ret |-> e.ret, rate |-> e.rate, tax |-> e.tax, inp |-> e.inp, gross |-> <<>>, net |-> <<>>, wh |-> "0"]
          p == Year(p0, s.y, e.gross)
          sp1 == (e.p :> "none") @@ s.sp
      IN IF Earlier(e.ret, b) THEN R(s, Clause("retires-before-birth", e.err = "EXC:ValueError"))
         ELSE IF ~Ok(e) THEN R(s, {"error-person"})
         ELSE Then([s EXCEPT !.ppl = (e.p :> p) @@ @, !.sp = SetSpouse(sp1, e.p, e.to)], e, {})
    [] e.ev = "account" -> IF ~Ok(e) THEN R(s, {"error-account"}) ELSE Then([s EXCEPT !.ow = (e.a :> e.to) @@ @], e, {})
    [] e.ev = "spouse" ->
      IF e.to = "bad" THEN Then(s, e, Clause("spouse-rejects", e.err = "EXC:TypeError"))
      ELSE Then([s EXCEPT !.sp = SetSpouse(@, e.p, e.to)], e, Clause("error-spouse", Ok(e)))
    [] e.ev = "owner" ->
      IF e.to = "bad" THEN Then(s, e, Clause("owner-rejects", e.err = "EXC:TypeError"))
      ELSE Then([s EXCEPT !.ow[e.a] = e.to], e, Clause("error-owner", Ok(e)))
    [] e.ev = "badret" -> Then(s, e, Clause("retirement-rejects", e.err /= "ok"))
    [] e.ev = "badtax" -> Then(s, e, Clause("tax-rejects", e.err = "EXC:TypeError"))
    [] e.ev = "next" ->
      LET y == s.y + 1
          Set(p) == LET q == s.ppl[p] IN
            [q EXCEPT !.rate = IF p \in DOMAIN e.rate THEN e.rate[p] ELSE @,
                      !.tax = IF p \in DOMAIN e.tax THEN e.tax[p] ELSE @,
                      !.ret = IF p \in DOMAIN e.ret THEN e.ret[p]
                              ELSE IF p \in DOMAIN e.retage THEN Birthday(q.birth, q.birth.y + e.retage[p]) ELSE @]
      IN IF ~Ok(e) THEN R(s, {"error-next"})
         ELSE Then([s EXCEPT !.y = y, !.ppl = [p \in DOMAIN s.ppl |-> Advance(Set(p), y)]], e, {})
    [] e.ev = "age" -> Then(s, e, Clause("age", Ok(e) /\ e.out = Age(s.ppl[e.p].birth, IF e.year THEN Birthday(s.ppl[e.p].birth, e.t.y) ELSE e.t)))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
