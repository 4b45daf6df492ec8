SPECIFICATION Spec
CONSTANTS Depth = 4
 Emit = TRUE
INVARIANTS RoundTrip Stable Fallback 
PROPERTIES Apart
CHECK_DEADLOCK FALSE
