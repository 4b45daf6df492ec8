SPECIFICATION Spec
CONSTANTS Times = {"0"}
 Big = 0
 Emit = FALSE
INVARIANTS Frequencies
CHECK_DEADLOCK FALSE
