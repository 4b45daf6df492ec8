------------------------------- MODULE Person -------------------------------
(* People: ages, incomes, marriages and the accounts they own.              *)
EXTENDS Rat, FiniteSets
(* Dates are records [y, m, d] of the Gregorian calendar. *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28
                  ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Earlier(a, b) == a.y < b.y \/ (a.y = b.y /\ (a.m < b.m \/ (a.m = b.m /\ a.d < b.d)))
\* The birthday in year y (of somebody born on 29 February: 28 in other years).
Birthday(b, y) == [y |-> y, m |-> b.m, d |-> IF b.d > MonthLen(y, b.m) THEN MonthLen(y, b.m) ELSE b.d]
Age(b, t) == t.y - b.y - (IF Earlier(t, Birthday(b, t.y)) THEN 1 ELSE 0)

(* Incomes.  Work goes on through the year of retirement. *)
Retired(ret, y) == ret.y < y
Raised(prev, rate, ret, y) == IF Retired(ret, y) THEN "0" ELSE RMul(prev, RAdd("1", rate))

(* Relations: spouse and owner are functions to people or "none". *)
Marry(sp, a, b) ==
  [p \in DOMAIN sp |->
     IF p = a THEN b
     ELSE IF p = b THEN a
     ELSE IF sp[p] \in {a, b} THEN "none"
     ELSE sp[p]]
Part(sp, a) == [p \in DOMAIN sp |-> IF p = a \/ sp[p] = a THEN "none" ELSE sp[p]]
SetSpouse(sp, a, b) == IF b = "none" THEN Part(sp, a) ELSE Marry(sp, a, b)
Owned(ow, p) == {x \in DOMAIN ow : ow[x] = p}
=============================================================================
