------------------------------- MODULE Timing -------------------------------
(***************************************************************************)
(* Schedules over a year (C12): functions from times in [0, 1] to weights  *)
(* or amounts.                                                             *)
(***************************************************************************)
EXTENDS Rat, FiniteSets
TGet(f, t) == IF t \in DOMAIN f THEN f[t] ELSE "0"
TMerge(f, g) == [t \in DOMAIN f \cup DOMAIN g |-> RAdd(TGet(f, t), TGet(g, t))]
TMinus(f, g) == [t \in DOMAIN f \cup DOMAIN g |-> RSub(TGet(f, t), TGet(g, t))]
\* Running total of f up to and including t.
Upto(f, t) == RSumOver(f, {u \in DOMAIN f : RLe(u, t)})
From(f, t) == {u \in DOMAIN f : RLe(t, u)}
Till(f, t) == {u \in DOMAIN f : RLe(u, t)}
\* The least running total from t on; the least one till t.
LeastFrom(f, t) == RMinSet({Upto(f, u) : u \in From(f, t)})
LeastTill(f, t) == RMinSet({Upto(f, u) : u \in Till(f, t)})
NonZero(f) == [t \in {u \in DOMAIN f : ~RZero(f[u])} |-> f[t]]

\* One equal part per period, at point w of each.
Periodic(w, n) == [t \in {RDiv(RAdd(RInt(k), w), RInt(n)) : k \in 0..(n - 1)} |-> RDiv("1", RInt(n))]

\* --- cash flows to a timing, step by step ------------------------------------
RECURSIVE TakeEarly(_, _, _)
\* As much as possible as early as possible, never overdrawing.
TakeEarly(times, f, taken) ==
  IF times = <<>> THEN <<>>
  ELSE LET t == Head(times)
           v == RSub(LeastFrom(f, t), taken)
       IN IF RPos(v) THEN (t :> v) @@ TakeEarly(Tail(times), f, RAdd(taken, v))
          ELSE TakeEarly(Tail(times), f, taken)
RECURSIVE CoverLate(_, _, _)
\* As little as possible as late as possible.
CoverLate(times, f, bal) ==
  IF times = <<>> THEN <<>>
  ELSE LET t == Head(times)  b == RAdd(bal, f[t])
       IN IF RIsNeg(b) THEN (t :> RNeg(b)) @@ CoverLate(Tail(times), f, "0")
          ELSE CoverLate(Tail(times), f, b)
FromFlows(f) ==
  IF DOMAIN f = {} THEN <<>>
  ELSE IF \A t \in DOMAIN f : RZero(f[t]) THEN [t \in DOMAIN f |-> "1"]
  ELSE IF \A t \in DOMAIN f : RLe("0", f[t]) THEN f
  ELSE IF \A t \in DOMAIN f : RLe(f[t], "0") THEN [t \in DOMAIN f |-> RNeg(f[t])]
  ELSE LET s == RSum(f) IN
       IF RZero(s) THEN <<>>
       ELSE IF RPos(s) THEN TakeEarly(RSortSet(DOMAIN f), f, "0")
       ELSE CoverLate(RSortSet(DOMAIN f), f, "0")
\* --- the guarantees, on their own ---------------------------------------------
Mixed(f) == (\E t \in DOMAIN f : RPos(f[t])) /\ (\E t \in DOMAIN f : RIsNeg(f[t]))
WellFormed(f, w) ==
  /\ DOMAIN w \subseteq DOMAIN f
  /\ \A t \in DOMAIN w : RLe("0", w[t])
\* Withdrawals w from flows f of positive total.
GoodWithdrawals(f, w) ==
  /\ RClose(RSum(w), RSum(f))
  /\ \A t \in DOMAIN w : RPos(w[t]) => \A u \in From(f, t) : RLeC(Upto(w, u), Upto(f, u))
\* Nothing could be taken earlier.
EarlyWithdrawals(f, w) == \A t \in DOMAIN f : RLeC(RMax("0", LeastFrom(f, t)), Upto(w, t))
\* Contributions w to flows f of negative total.
GoodContributions(f, w) ==
  /\ \A t \in DOMAIN f : RLeC("0", RAdd(Upto(f, t), Upto(w, t)))
  /\ RClose(RSum(w), RNeg(RMinSet({Upto(f, t) : t \in DOMAIN f})))
\* Nothing is asked for before it is needed.
LateContributions(f, w) == \A t \in DOMAIN f : RLeC(Upto(w, t), RMax("0", RNeg(LeastTill(f, t))))
GoodTiming(f, w) ==
  /\ WellFormed(f, w)
  /\ Mixed(f) /\ RPos(RSum(f)) => GoodWithdrawals(f, w) /\ EarlyWithdrawals(f, w)
  /\ Mixed(f) /\ RIsNeg(RSum(f)) => GoodContributions(f, w) /\ LateContributions(f, w)
  /\ Mixed(f) /\ RZero(RSum(f)) => w = <<>>
  /\ ~Mixed(f) => DOMAIN w = DOMAIN f
\* --- scalars ------------------------------------------------------------------
Part(w, K) == LET s == RSumOver(w, K) IN [t \in K |-> RDiv(w[t], s)]
Series(w, K, x) == LET s == RSumOver(w, K) IN [t \in K |-> RMul(x, RDiv(w[t], s))]
Proportional(f, w, K) == \A t, u \in K : RClose(RMul(f[t], w[u]), RMul(f[u], w[t]))
=============================================================================
