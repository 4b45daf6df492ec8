SPECIFICATION Spec
CONSTANTS Depth = 3
 Emit = TRUE
 Names = {"a", "b"}
INVARIANTS Bounded Shared EmitAll
PROPERTIES OthersUnchanged
CHECK_DEADLOCK FALSE
