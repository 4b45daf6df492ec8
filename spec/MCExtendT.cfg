SPECIFICATION Spec
CONSTANTS First = 2000
 Last = 2004
 Prices = {1, 2, 3}
 Vals = {0, 5, 7}
 Emit = TRUE
INVARIANTS Listed Source Real Flat Complete EmitAll
CHECK_DEADLOCK FALSE
