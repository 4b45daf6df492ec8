SPECIFICATION Spec
CONSTANTS Emit = TRUE
 Size = 0
INVARIANTS Proper HighDebtsFirst InOrder Nothing ByRank Rules EmitAll
CHECK_DEADLOCK FALSE
