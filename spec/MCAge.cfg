SPECIFICATION Spec
CONSTANTS First = 1896
 Last = 1905
 Emit = TRUE
INVARIANTS Years EmitAll
CHECK_DEADLOCK FALSE
