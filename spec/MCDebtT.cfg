SPECIFICATION Spec
CONSTANTS Depth = 3
 Emit = TRUE
 Rates = {"0", "1", "-1/2"}
 Opens = {"0", "4", "-10"}
INVARIANTS NotOverpaid NeverSource Capped MinimumMet MinWithinMax EmitAll
PROPERTIES StaysDebt
CHECK_DEADLOCK FALSE
