SPECIFICATION Spec
CONSTANTS Emit = FALSE
 Size = 1
 Depth = 4
INVARIANTS Untouched CopiesRelated Resolved Shared Apart Repeatable EmitAll
CHECK_DEADLOCK FALSE
