SPECIFICATION Spec
CONSTANTS
 N = 3
 MaxArgs = 5
INVARIANTS Matrix Interpolation Tiling Broadcasts Sigmoids ClippedLines
CHECK_DEADLOCK FALSE
