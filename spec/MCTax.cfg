SPECIFICATION Spec
CONSTANTS First = 2000
 Last = 2002
 Incomes = {0, 1, 2, 5, 7, 10, 25, 60}
 Emit = TRUE
INVARIANTS OrderFree ZeroAtZero NeverNegative Increasing Marginal RealBurden Credits EmitAll
CHECK_DEADLOCK FALSE
