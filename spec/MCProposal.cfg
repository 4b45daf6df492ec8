SPECIFICATION Spec
CONSTANTS Depth = 2
 Emit = FALSE
 Full = FALSE
INVARIANTS Proposals Reaches
CHECK_DEADLOCK FALSE
