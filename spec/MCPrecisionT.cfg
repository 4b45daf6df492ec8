SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
 Fields = {"a", "b"}
 Vals = {"1/2"}
 Types = {"ord", "dec"}
 Modes = {"ord", "dec", "frac"}
 Depth = 4
 Emit = TRUE
INVARIANTS ReadsLast Value Typed Mixing EmitAll
PROPERTIES TouchOnly
CHECK_DEADLOCK FALSE
