SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANTS EveryGalaxyOnce SameId SameFlag SameValues NoFitMarked Idempotent RowsAreLines
PROPERTY LinesOnlyGrow
CHECK_DEADLOCK FALSE
