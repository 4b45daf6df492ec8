SPECIFICATION Spec
CONSTANTS Depth = 5
 Emit = TRUE
 Props = {"plain", "cached", "ccustom"}
INVARIANTS Inv EmitAll
PROPERTIES Append1 OnlyNextAdvances
CHECK_DEADLOCK FALSE
