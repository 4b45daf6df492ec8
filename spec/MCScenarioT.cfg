SPECIFICATION Spec
CONSTANTS First = 2000
 Len0 = 4
 RateTags = {"a", "b", "c", "d", "e"}
 Emit = TRUE
INVARIANTS One Composes Inverts Positive Step1 EmitAll
CHECK_DEADLOCK FALSE
