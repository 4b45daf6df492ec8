-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Arbitrary-precision rational arithmetic for TLC.                        *)
(*                                                                         *)
(* A number is a string "n" or "n/d" in lowest terms (d > 1), or one of    *)
(* "inf", "-inf", "nan".  TLC evaluates the operators below through the    *)
(* Java overrides in java/vf/Rat.java, because TLC integers are 32 bits    *)
(* wide.  Each operator also has a TLA+ meaning: for finite arguments it   *)
(* is ordinary rational arithmetic, which module RatCheck states over      *)
(* <<num, den>> pairs and compares with the overrides for every pair of    *)
(* small rationals.  The bodies here are placeholders that TLC must never  *)
(* evaluate (they fail loudly when the overrides are missing).             *)
(***************************************************************************)
EXTENDS TLC, Integers, Sequences

LOCAL NoOverride(op) == Assert(FALSE, "Rat override missing: " \o op)

RAdd(a, b) == NoOverride("RAdd")
RSub(a, b) == NoOverride("RSub")
RMul(a, b) == NoOverride("RMul")
RDiv(a, b) == NoOverride("RDiv")        \* x/0 is inf, -inf or nan
RNeg(a)    == NoOverride("RNeg")
RAbs(a)    == NoOverride("RAbs")
RLe(a, b)  == NoOverride("RLe")
RLt(a, b)  == NoOverride("RLt")
REq(a, b)  == NoOverride("REq")
RMin(a, b) == NoOverride("RMin")
RMax(a, b) == NoOverride("RMax")
RFloor(a)  == NoOverride("RFloor")
RIsInt(a)  == NoOverride("RIsInt")
RIsFin(a)  == NoOverride("RIsFin")
RIsNaN(a)  == NoOverride("RIsNaN")
RPow(a, e) == NoOverride("RPow")        \* a > 0, e any rational
RExp(a)    == NoOverride("RExp")        \* Euler's e to the a
RCloseTol(a, b, t) == NoOverride("RCloseTol")  \* |a-b| <= t*max(1,|a|,|b|)
RSumSeq(s) == NoOverride("RSumSeq")
RToInt(a)  == NoOverride("RToInt")

RGe(a, b) == RLe(b, a)
RGt(a, b) == RLt(b, a)
RInt(n) == ToString(n)
RTol == "1/10000000"                    \* float noise, with a wide margin
RClose(a, b) == RCloseTol(a, b, RTol)
\* a <= b up to float noise
RLeTol(a, b, t) == RLe(a, b) \/ RCloseTol(a, b, t)
RLeC(a, b) == RLe(a, b) \/ RClose(a, b)
RLtC(a, b) == RLt(a, b) /\ ~RClose(a, b)
\* ... where the figures come from amounts as large as m (cancellation)
RCloseS(a, b, m) == RClose(a, b) \/ RLe(RAbs(RSub(a, b)), RMul("1/10000000000", m))
RLeS(a, b, m) == RLe(a, b) \/ RCloseS(a, b, m)
RPos(a) == RLt("0", a)
RIsNeg(a) == RLt(a, "0")
RZero(a) == REq(a, "0")

RECURSIVE RSumOver(_, _)
\* Sum of f[x] for x in S.
RSumOver(f, S) ==
  IF S = {} THEN "0"
  ELSE LET x == CHOOSE x \in S : TRUE
       IN RAdd(f[x], RSumOver(f, S \ {x}))
RSum(f) == RSumOver(f, DOMAIN f)

RECURSIVE RMinSet(_)
RMinSet(S) == IF S = {} THEN "inf"
              ELSE LET x == CHOOSE x \in S : TRUE
                   IN RMin(x, RMinSet(S \ {x}))
RECURSIVE RMaxSet(_)
RMaxSet(S) == IF S = {} THEN "-inf"
              ELSE LET x == CHOOSE x \in S : TRUE
                   IN RMax(x, RMaxSet(S \ {x}))
RECURSIVE RSortSet(_)
RSortSet(S) == IF S = {} THEN <<>>
               ELSE LET m == RMinSet(S) IN <<m>> \o RSortSet(S \ {m})
=============================================================================
