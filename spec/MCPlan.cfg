SPECIFICATION Spec
CONSTANTS Depth = 4
 Years = 3
 Emit = TRUE
INVARIANTS Conserved WithinRoom Together EmitAll
CHECK_DEADLOCK FALSE
