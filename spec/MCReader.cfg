SPECIFICATION Spec
CONSTANTS Depth = 3
 Emit = TRUE
INVARIANTS RoundTrip Stable Fallback EmitAll
PROPERTIES Apart
CHECK_DEADLOCK FALSE
