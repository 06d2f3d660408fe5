SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANTS Tiling Conserved NoAccretionAfterPeak AccretionGrows CellsSumToChange
PROPERTY Past
CHECK_DEADLOCK FALSE
