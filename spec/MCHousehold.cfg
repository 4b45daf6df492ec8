SPECIFICATION Spec
CONSTANTS People = {"a", "b", "c"}
 Emit = TRUE
INVARIANTS SumOfParts OncEach CouplesOnce CombinedTax ReliefOnce EmitAll
CHECK_DEADLOCK FALSE
