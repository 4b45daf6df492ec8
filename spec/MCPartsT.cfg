SPECIFICATION Spec
CONSTANTS Emit = TRUE
 Size = 1
 Depth = 5
 Eps = "0"
INVARIANTS CashIs Tells Apart Even Covered EmitAll
CHECK_DEADLOCK FALSE
