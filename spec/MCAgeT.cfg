SPECIFICATION Spec
CONSTANTS First = 1896
 Last = 1930
 Emit = TRUE
INVARIANTS Years EmitAll
CHECK_DEADLOCK FALSE
