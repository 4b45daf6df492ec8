SPECIFICATION Spec
CONSTANTS Times = {"0", "1/4", "1/2", "1"}
 Big = 2
 Emit = TRUE
INVARIANTS Good Scalars EmitAll
CHECK_DEADLOCK FALSE
