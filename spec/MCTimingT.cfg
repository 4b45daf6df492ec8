SPECIFICATION Spec
CONSTANTS Times = {"0", "1/4", "1/2", "3/4", "1"}
 Big = 3
 Emit = TRUE
INVARIANTS Good Scalars EmitAll
CHECK_DEADLOCK FALSE
