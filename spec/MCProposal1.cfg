SPECIFICATION Spec
CONSTANTS Depth = 1
 Emit = FALSE
 Full = FALSE
INVARIANTS Proposals Reaches
CHECK_DEADLOCK FALSE
