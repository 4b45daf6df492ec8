SPECIFICATION Spec
CONSTANTS Depth = 6
 Emit = TRUE
INVARIANTS ByLaw Feasible Complied TaxedOnce WithheldOk RoomOk EmitAll
CHECK_DEADLOCK FALSE
