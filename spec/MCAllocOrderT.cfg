SPECIFICATION Spec
CONSTANTS Emit = TRUE
 Size = 2
INVARIANTS Order Weight Symmetric Grows EmitAll
CHECK_DEADLOCK FALSE
