SPECIFICATION Spec
CONSTANTS Emit = TRUE
 Size = 0
 Depth = 2
 Eps = "0"
INVARIANTS Good Even Account0 Restored EmitAll
CHECK_DEADLOCK FALSE
