SPECIFICATION Spec
CONSTANT NPts = 4
CONSTANT NDim = 2
INVARIANTS NonNegative Conserved OrderFree Merged
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
