SPECIFICATION TraceSpec
CONSTANT Eps = "1/1000000000"
CHECK_DEADLOCK FALSE
