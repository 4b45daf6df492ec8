SPECIFICATION Spec
CONSTANTS Emit = TRUE
 Size = 1
INVARIANTS Proper HighDebtsFirst InOrder Nothing ByRank Rules EmitAll
CHECK_DEADLOCK FALSE
