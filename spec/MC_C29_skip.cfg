SPECIFICATION Spec
CONSTANTS NZ = 2 NM = 2 Need = 2 NHalos = 3 Skip = TRUE
INVARIANTS OwnHalos AllCells Tables Once Weights
CHECK_DEADLOCK FALSE
