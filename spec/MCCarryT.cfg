SPECIFICATION Spec
CONSTANTS Emit = FALSE
 Size = 1
 Years = 3
 Eps = "0"
INVARIANTS TogetherAtCalls Ordered OncePerYear NothingLost CashIs EmitAll
CHECK_DEADLOCK FALSE
