SPECIFICATION Spec
CONSTANTS Years = 6
 Emit = FALSE
INVARIANTS NonNegative Floor Floor1 Phases RealConstant Contribution
CHECK_DEADLOCK FALSE
