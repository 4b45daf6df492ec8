SPECIFICATION Spec
CONSTANTS Emit = TRUE
 Size = 0
 Depth = 3
INVARIANTS Untouched CopiesRelated Resolved Shared Apart Repeatable EmitAll
CHECK_DEADLOCK FALSE
