SPECIFICATION Spec
CONSTANTS Depth = 5
 NumYears = 2
 Emit = TRUE
INVARIANTS Reconciles NotNegative NoGain Liquidated EmitAll
CHECK_DEADLOCK FALSE
