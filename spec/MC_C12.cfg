SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS EveryGalaxyOnce SameId SameFlag SameValues NoFitMarked Idempotent RowsAreLines
PROPERTY LinesOnlyGrow
CHECK_DEADLOCK FALSE
