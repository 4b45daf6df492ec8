SPECIFICATION Spec
CONSTANTS Emit = TRUE
 Size = 0
 Years = 3
 Eps = "0"
INVARIANTS TogetherAtCalls Ordered OncePerYear NothingLost CashIs EmitAll
CHECK_DEADLOCK FALSE
