SPECIFICATION Spec
CONSTANTS Depth = 3
 Emit = TRUE
 Full = FALSE
INVARIANTS ClosedForm Identity Chain EmitAll
CHECK_DEADLOCK FALSE
