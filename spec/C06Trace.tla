------------------------------ MODULE C06Trace ------------------------------
EXTENDS TraceBase, Plan
\* setup: law, price, born (person -> year), first.  State: P as in Plan, with
\* a year for each plan; e.rooms and e.years report every account.
Init0(s) == [P |-> [of |-> <<>>, plans |-> <<>>, tx |-> <<>>], yr |-> <<>>, law |-> <<>>, price |-> <<>>, born |-> <<>>]
R(s, bad) == [st |-> s, bad |-> bad]
Pick(opts, seen) == IF \E r \in opts : RClose(r, seen) THEN CHOOSE r \in opts : RClose(r, seen) ELSE CHOOSE r \in opts : TRUE
At(s, k) == [year |-> s.yr[k]] @@ s.P
Reports(s, e) ==
  Clause("one-room-per-plan", \A a \in DOMAIN s.P.of : a \in DOMAIN e.rooms /\ RClose(e.rooms[a], s.P.plans[s.P.of[a]].room))
  \cup Clause("same-year", \A a \in DOMAIN s.P.of : a \in DOMAIN e.years /\ e.years[a] = s.yr[s.P.of[a]])
Then(s, e, bad) == R(s, bad \cup Reports(s, e))
Step(s, e) ==
  LET F(t, b) == RDiv(s.price[RInt(t)], s.price[RInt(b)]) IN
  CASE e.ev = "law" -> R([s EXCEPT !.law = e.law, !.price = e.price, !.born = e.born], {})
    [] e.err # "ok" -> R(s, {"error-" \o e.ev})
    [] e.ev = "new" ->
      LET k == e.key  old == k \in DOMAIN s.P.plans
          opts == IF e.room # "none" THEN {e.room}
                  ELSE IF old THEN {s.P.plans[k].room}
                  ELSE IF e.kind = "rrsp" THEN {"0"}
                  ELSE FirstRoom(e.given, s.law, F, e.y, s.born[e.c])
          seen == e.rooms[e.a]
          room == Pick(opts, seen)
          given == IF old THEN s.P.plans[k].given @@ e.given ELSE e.given
          s1 == [s EXCEPT !.P.of = APut(@, e.a, k), !.P.tx = APut(@, e.a, NoTx), !.yr = APut(@, k, e.y),
                          !.P.plans = APut(@, k, [kind |-> e.kind, room |-> room, given |-> given])]
      IN Then(s1, e, Clause("initial-room", RClose(room, seen)))
    [] e.ev = "add" -> Then([s EXCEPT !.P.tx[e.a] = APut(@, e.t, RAdd(AGet(@, e.t), e.v))], e, {})
    \* An account moves to another contributor's plan of its kind.
    [] e.ev = "contributor" ->
      LET s1 == [s EXCEPT !.P.of[e.a] = e.key]
      IN Then(s1, e, {})
    [] e.ev = "setroom" -> Then([s EXCEPT !.P.plans[s.P.of[e.a]].room = e.v], e, {})
    [] e.ev = "offer" -> Then(s, e, Clause("offer", RClose(e.out, Left(s.P, s.P.of[e.a]))))
    [] e.ev = "pnext" -> Then(s, e, {})
    [] e.ev = "next" ->
      LET k == s.P.of[e.a]
          c == e.c
          y == s.yr[k]
          opts == NextRoom(At(s, k), k, s.law, F, y + 1 - s.born[c], e.gross)
          seen == e.rooms[e.a]
          room == Pick(opts, seen)
          s1 == [s EXCEPT !.yr[k] = @ + 1, !.P.plans[k].room = room,
                          !.P.tx = [a \in DOMAIN @ |-> IF s.P.of[a] = k THEN NoTx ELSE @[a]]]
      IN Then(s1, e, Clause("next-room", RClose(room, seen)))
TraceInit == InitWith(Init0)
TraceNext == NextWith(Step)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
