SPECIFICATION Spec
CONSTANTS First = 2000
 Last = 2003
 Incomes = {0, 5, 7, 25}
 Emit = TRUE
INVARIANTS OrderFree ZeroAtZero NeverNegative Increasing Marginal RealBurden Credits EmitAll
CHECK_DEADLOCK FALSE
