SPECIFICATION Spec
CONSTANTS Depth = 4
 Emit = TRUE
 People = {"p", "q", "r"}
 Accts = {"a", "b"}
INVARIANTS Mutual NotSelf OneOwner NoneAfter EmitAll
PROPERTIES Bystanders
CHECK_DEADLOCK FALSE
