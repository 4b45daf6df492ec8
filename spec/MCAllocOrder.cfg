SPECIFICATION Spec
CONSTANTS Emit = TRUE
 Size = 0
INVARIANTS Order Weight Symmetric Grows EmitAll
CHECK_DEADLOCK FALSE
