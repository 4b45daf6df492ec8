SPECIFICATION Spec
CONSTANTS Depth = 4
 Emit = TRUE
 Full = TRUE
INVARIANTS ClosedForm Identity Chain EmitAll
CHECK_DEADLOCK FALSE
