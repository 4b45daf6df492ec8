------------------------------- MODULE MCAge --------------------------------
(* A calendar runs day by day; a person grows one year older on each        *)
(* birthday and on no other day: the age is the number of birthdays.        *)
EXTENDS Person, Json, TLC
CONSTANTS First, Last, Emit
VARIABLES birth, today, count
vars == <<birth, today, count>>
Births == {[y |-> First, m |-> m, d |-> d] : m \in {1, 2, 3, 12}, d \in {1, 28, 29, 30, 31}}
Tomorrow(t) == IF t.d < MonthLen(t.y, t.m) THEN [t EXCEPT !.d = @ + 1]
               ELSE IF t.m < 12 THEN [t EXCEPT !.d = 1, !.m = @ + 1]
               ELSE [y |-> t.y + 1, m |-> 1, d |-> 1]
Init == /\ birth \in {b \in Births : b.d <= MonthLen(b.y, b.m)}
        /\ today = birth /\ count = 0
IsBirthday(t) == t.m = birth.m /\ (t.d = birth.d \/ (birth.m = 2 /\ birth.d = 29 /\ t.d = 28 /\ ~Leap(t.y)))
Next == /\ today.y <= Last
        /\ today' = Tomorrow(today)
        /\ count' = IF IsBirthday(today') THEN count + 1 ELSE count
        /\ UNCHANGED birth
Spec == Init /\ [][Next]_vars
Years == Age(birth, today) = count
\* Days next to a birthday and a few others become test inputs.
Interesting == today.d \in {1, 15, 27, 28, 29, 30, 31}
EmitAll == (Emit /\ Interesting) => PrintT(<<"GEN", ToJson([b |-> birth, t |-> today])>>)
=============================================================================
