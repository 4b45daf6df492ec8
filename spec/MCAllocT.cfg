SPECIFICATION Spec
CONSTANTS Emit = TRUE
 Size = 1
INVARIANTS Total Limits Uses Mins EmitAll
CHECK_DEADLOCK FALSE
