SPECIFICATION Spec
CONSTANTS Emit = TRUE
 Size = 0
 Depth = 4
 Eps = "0"
INVARIANTS CashIs Tells Apart Even Covered EmitAll
CHECK_DEADLOCK FALSE
