SPECIFICATION Spec
CONSTANTS People = {"a", "b", "c"}
 Incomes = {"0", "12", "30"}
 Emit = TRUE
INVARIANTS SomeWinners AtMostOne HigherIncome CreditBounds Worth EmitAll
CHECK_DEADLOCK FALSE
