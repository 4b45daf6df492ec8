------------------------------ MODULE C12Trace ------------------------------
EXTENDS TraceBase, Timing
Init0(s) == 0
R(bad) == [st |-> 0, bad |-> bad]
Same(f, g) == DOMAIN f = DOMAIN g /\ \A t \in DOMAIN f : RClose(f[t], g[t])
\* Equal as schedules whose times may carry float noise.
Near(f, g) == /\ Cardinality(DOMAIN f) = Cardinality(DOMAIN g)
              /\ \A t \in DOMAIN f : \E u \in DOMAIN g : RClose(t, u) /\ RClose(f[t], g[u])
              /\ \A u \in DOMAIN g : \E t \in DOMAIN f : RClose(t, u)
Keys(e) == IF e.keys = <<>> THEN DOMAIN e.w ELSE {e.keys[i] : i \in DOMAIN e.keys}
Codes == [D |-> 365, W |-> 52, BW |-> 26, SM |-> 24, M |-> 12, BM |-> 6, Q |-> 4, SA |-> 2, A |-> 1]
Step(st0, e) ==
  CASE e.ev = "flows" -> R(IF e.err /= "ok" THEN {"flows-error"} ELSE
          Clause("timing-from-flows", Same(e.out, FromFlows(e.f)))
          \cup Clause("timing-good", GoodTiming(e.f, e.out))
          \cup Clause("flows-unchanged", e.same))
    [] e.ev = "copy" -> R(Clause("copied", e.err = "ok" /\ Same(e.out, e.w)))
    [] e.ev = "freq" -> R(IF e.err /= "ok" THEN {"frequency-error"} ELSE
          Clause("one-part-per-period", Near(e.out, Periodic(e.when, e.n)))
          \cup Clause("within-year", \A t \in DOMAIN e.out : RLe("0", t) /\ RLe(t, "1"))
          \cup Clause("parts-sum-to-one", RClose(RSum(e.out), "1")))
    [] e.ev = "norm" -> R(IF e.err /= "ok" THEN {"normalized-error"} ELSE
          Clause("normalized", Same(e.out, Part(e.w, Keys(e))))
          \cup Clause("normalized-sum", RClose(RSum(e.out), "1"))
          \cup Clause("unchanged", e.same))
    [] e.ev = "series" -> R(IF e.err /= "ok" THEN {"series-error"} ELSE
          Clause("series", Same(e.out, Series(e.w, Keys(e), e.x)))
          \cup Clause("series-sum", RClose(RSum(e.out), e.x))
          \cup Clause("series-proportional", Proportional(e.out, e.w, Keys(e)))
          \cup Clause("unchanged", e.same))
    [] e.ev = "txs" -> R(IF e.err /= "ok" THEN {"transactions-error"} ELSE
          LET w == IF e.plain THEN FromFlows(e.w) ELSE e.w IN
          Clause("transactions", Same(e.out, Series(w, DOMAIN w, e.x)))
          \cup Clause("transactions-sum", RClose(RSum(e.out), e.x)))
    [] e.ev = "combine" -> R(
          Clause("combined", Same(e.out, IF e.op = "add" THEN TMerge(e.f, e.g) ELSE TMinus(e.f, e.g)))
          \cup Clause("second-unchanged", Same(e.g2, e.g)))
    [] e.ev = "when" -> R(Clause("when", e.out = e.want))
    [] e.ev = "conv" -> R(Clause("frequency", e.out = e.want))
    [] e.ev = "code" -> R(Clause("frequency-code", e.out = RInt(Codes[e.code])))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
