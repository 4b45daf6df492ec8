CONSTANTS N = 4
 D = 3
INIT Init
NEXT Next
INVARIANT Agree
CHECK_DEADLOCK FALSE
