SPECIFICATION Spec
CONSTANTS Emit = TRUE
 Size = 0
INVARIANTS Total Limits Uses Mins EmitAll
CHECK_DEADLOCK FALSE
