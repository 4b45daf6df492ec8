SPECIFICATION Spec
CONSTANTS Ages = {20, 90}
 Rets = {55, 65, 70}
 Pcts = {"0", "1/4", "1/2", "1"}
 Targets = {100, 125, 165, 40}
 Emit = TRUE
INVARIANTS Shares Bounded Glide Later Return1 EmitAll
CHECK_DEADLOCK FALSE
