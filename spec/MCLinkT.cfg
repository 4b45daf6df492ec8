SPECIFICATION Spec
CONSTANTS Depth = 4
 Emit = TRUE
 Names = {"a", "b"}
INVARIANTS Bounded Shared EmitAll
PROPERTIES OthersUnchanged
CHECK_DEADLOCK FALSE
