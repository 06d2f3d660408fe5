SPECIFICATION Spec
CONSTANTS NZ = 2 NM = 2 Need = 2 NHalos = 3 Skip = FALSE
INVARIANTS OwnHalos AllCells Tables Once Weights
PROPERTY Finishes
CHECK_DEADLOCK FALSE
