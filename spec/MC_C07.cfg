SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Tiling Conserved NoAccretionAfterPeak AccretionGrows CellsSumToChange
PROPERTY Past
CHECK_DEADLOCK FALSE
