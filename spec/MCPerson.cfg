SPECIFICATION Spec
CONSTANTS Depth = 3
 Emit = TRUE
 People = {"p", "q", "r"}
 Accts = {"a"}
INVARIANTS Mutual NotSelf OneOwner NoneAfter EmitAll
PROPERTIES Bystanders
CHECK_DEADLOCK FALSE
