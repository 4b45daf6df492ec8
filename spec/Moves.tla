-------------------------------- MODULE Moves --------------------------------
(***************************************************************************)
(* Money moved between stores by the parts of a forecast (C16).            *)
(*                                                                         *)
(* A store is a cash pool or an account.  State W: stores, a sequence of   *)
(* [kind: "cash" | "account", open, rate, nper, limit (the most that may   *)
(* be taken out), exact (all sums are free of rounding), tx: time ->       *)
(* net flow]; recs: one record per part, from                              *)
(* store number (0: the world outside) to time -> net flow; called: which  *)
(* parts have been called since they last started afresh; past: one        *)
(* sequence of closed years' records per part.                             *)
(* Eps is the relative width of float noise around a decision (0 in the    *)
(* model; a decision that close may go either way).  A shortfall of less   *)
(* than the precision of amounts of money counts as noise.                 *)
(***************************************************************************)
EXTENDS Account
LOCAL INSTANCE FiniteSets
CONSTANT Eps
Precision == "1/50000"
MNone == <<>>
EmptyRec == <<>>
RecAdd(rec, k, t, v) == APut(rec, k, Merge(IF AHas(rec, k) THEN rec[k] ELSE MNone, t :> v))
RecOf(rec, k) == IF AHas(rec, k) THEN rec[k] ELSE MNone

\* --- what a store can pay -----------------------------------------------------
StoreAccum(S, t, T) == IF S.kind = "cash" THEN "1" ELSE Accum(RSub(T, t), S.rate, S.nper)
StoreBalance(S, t) ==
  IF S.kind = "cash" THEN RSumOver(S.tx, {r \in DOMAIN S.tx : RLe(r, t)})
  ELSE BalanceOf(S.open, S.tx, S.rate, S.nper, t)
KeysAfter(S, t) == {r \in DOMAIN S.tx : RLt(t, r)}
\* The most that can be taken out at t without going negative then or later,
\* in the money of time t.
Worth(S, t) == RMinSet({RDiv(StoreBalance(S, r), StoreAccum(S, t, r)) : r \in {t} \cup KeysAfter(S, t)})
\* The same, from the definition: taking v at t leaves no negative balance.
Covers(S, t, v) ==
  LET Z == [S EXCEPT !.tx = Merge(@, t :> RNeg(v))]
  IN \A r \in {t} \cup KeysAfter(S, t) : RLe("0", StoreBalance(Z, r))
SizeOf(S, v) == RAdd(RAdd(RAbs(v), RAbs(S.open)), RSum([t \in DOMAIN S.tx |-> RAbs(S.tx[t])]))
Grows(S) == S.kind # "cash" /\ RPos(S.rate)

\* --- when a payment happens ----------------------------------------------------
Starts(S, when) == {when} \cup KeysAfter(S, when)
EndOf(S, when, a) == RMinSet({"1"} \cup {b \in Starts(S, when) : RLt(a, b)})
IsLast(S, when, a) == ~\E b \in Starts(S, when) : RLt(a, b)
\* (float noise: e is the width)
Surely(x, v, e) == RLe(RAdd(v, e), x)
Maybe(x, v, e) == RLe(RSub(v, e), x)
\* Some time before t (t = "never": any time at all) would surely have done.
Passed(S, when, v, t, e) ==
  \E a \in Starts(S, when) :
    /\ (t = "never" \/ RLt(a, t))
    /\ LET w == Worth(S, a)
           b == EndOf(S, when, a)
           m == IF t # "never" /\ RLt(t, b) THEN t ELSE b
           g == RMul(w, StoreAccum(S, a, m))
       IN \/ Surely(w, v, e)
          \* the amount grows past v before m (or reaches it by the year's end)
          \/ /\ Grows(S)
             /\ \/ RLt(RAdd(v, e), g)
                \/ t = "never" /\ IsLast(S, when, a) /\ Surely(g, v, e)
\* Figures that add up without rounding leave no doubt.
Width(S, v) == IF S.exact /\ (S.kind = "cash" \/ RZero(S.rate)) THEN "0" ELSE IF Eps = "0" THEN "0" ELSE RAdd(Precision, RMul(Eps, SizeOf(S, v)))
\* t is the time for paying v out of S, asked for at `when`, or not before.
RightTime(S, when, v, strict, t) ==
  IF strict \/ RZero(v) THEN t = when
  ELSE LET e == Width(S, v)
           able == Maybe(S.limit, v, e)
           sure == Surely(S.limit, v, e)
       IN \/ /\ able /\ RLe(when, t) /\ RLe(t, "1")
             /\ Maybe(Worth(S, t), v, e)
             /\ ~Passed(S, when, v, t, e)
          \/ /\ t = when
             /\ ~(sure /\ Passed(S, when, v, "never", e))

\* --- movements -------------------------------------------------------------------
StoreAdd(W, k, t, v) == IF k = 0 THEN W ELSE [W EXCEPT !.stores[k].tx = Merge(@, t :> v)]
\* v leaves f and reaches g at t, and part p writes down both.
Pay(W, p, f, g, t, v) ==
  LET A == [StoreAdd(W, f, t, RNeg(v)) EXCEPT !.recs[p] = RecAdd(@, f, t, RNeg(v))]
  IN [StoreAdd(A, g, t, v) EXCEPT !.recs[p] = RecAdd(@, g, t, v)]
\* The times at which v may leave f: T holds the times worth considering.
Times(W, f, when, v, strict, T) ==
  IF f = 0 THEN {when}
  ELSE {t \in T \cup {when} \cup DOMAIN W.stores[f].tx : RightTime(W.stores[f], when, v, strict, t)}
\* A movement mv = [p, v, w (pairs of time and weight), from, to, strict]: the
\* outcomes after its pieces from the i-th on.
RECURSIVE Pieces(_, _, _, _)
Pieces(W, mv, i, T) ==
  IF i > Len(mv.w) THEN {W}
  ELSE LET neg == RIsNeg(mv.v)
           f == IF neg THEN mv.to ELSE mv.from
           g == IF neg THEN mv.from ELSE mv.to
           total == RSumSeq([j \in DOMAIN mv.w |-> mv.w[j][2]])
           v == RDiv(RMul(RAbs(mv.v), mv.w[i][2]), total)
       IN UNION {Pieces(Pay(W, mv.p, f, g, t, v), mv, i + 1, T) :
                   t \in Times(W, f, mv.w[i][1], v, mv.strict, T)}
\* The earliest piece goes first.
ByTime(w) == LET k == RSortSet({w[i][1] : i \in DOMAIN w})
             IN [i \in DOMAIN k |-> w[CHOOSE j \in DOMAIN w : w[j][1] = k[i]]]
\* A group of movements of one time each is also made from the earliest on.
Grouped(mvs) == LET k == RSortSet({mvs[i].w[1][1] : i \in DOMAIN mvs})
                IN [i \in DOMAIN k |-> mvs[CHOOSE j \in DOMAIN mvs : mvs[j].w[1][1] = k[i]]]
Move(W, mv, T) == Pieces(W, [mv EXCEPT !.w = ByTime(@)], 1, T)
RECURSIVE Moves(_, _, _)
Moves(W, mvs, T) ==
  IF mvs = <<>> THEN {W} ELSE UNION {Moves(X, Tail(mvs), T) : X \in Move(W, Head(mvs), T)}

\* Everything part p has written down is taken back.
Undo(W, p) ==
  [W EXCEPT !.stores = [k \in DOMAIN @ |-> [@[k] EXCEPT !.tx = Merge(@, [t \in DOMAIN RecOf(W.recs[p], k) |-> RNeg(RecOf(W.recs[p], k)[t])])]],
            !.recs[p] = EmptyRec, !.called[p] = FALSE]
\* A part is called: what an earlier call did is taken back first.
Call(W, p, mvs, T) ==
  LET X == IF W.called[p] THEN Undo(W, p) ELSE W
  IN Moves([X EXCEPT !.called[p] = TRUE], mvs, T)
\* A new year for part p: the record is kept, and a new one started.
NewYear(W, p) ==
  [W EXCEPT !.past[p] = Append(@, W.recs[p]), !.recs[p] = EmptyRec, !.called[p] = FALSE]

\* --- the guarantees, on their own ---------------------------------------------------
\* What p has written down balances at every time.
AllTimes(rec) == UNION {DOMAIN rec[k] : k \in DOMAIN rec}
Balanced(rec, m) == \A t \in AllTimes(rec) :
                       RCloseS(RSum([k \in DOMAIN rec |-> AGet(rec[k], t)]), "0", m)
SameFlows(f, g, m) == \A t \in DOMAIN f \cup DOMAIN g : RCloseS(AGet(f, t), AGet(g, t), m)
\* Each store holds what it held at the start (base) and what the parts moved.
RECURSIVE RecsOn(_, _)
RecsOn(recs, k) == IF recs = <<>> THEN MNone ELSE Merge(RecOf(Head(recs), k), RecsOn(Tail(recs), k))
Accounted(W, base, m) == \A k \in DOMAIN W.stores : SameFlows(W.stores[k].tx, Merge(base[k], RecsOn(W.recs, k)), m)
\* Never negative, from `when` on.
Sound(S, when) == \A r \in {when} \cup KeysAfter(S, when) : RLe("0", StoreBalance(S, r))
=============================================================================
