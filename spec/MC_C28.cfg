SPECIFICATION Spec
CONSTANTS
 N = 2
 MaxArgs = 4
INVARIANTS Matrix Interpolation Tiling Broadcasts Sigmoids ClippedLines
CHECK_DEADLOCK FALSE
