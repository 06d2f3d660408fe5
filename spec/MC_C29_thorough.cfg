SPECIFICATION Spec
CONSTANTS NZ = 2 NM = 2 Need = 3 NHalos = 4 Skip = FALSE
INVARIANTS OwnHalos AllCells Tables Once Weights
PROPERTY Finishes
CHECK_DEADLOCK FALSE
