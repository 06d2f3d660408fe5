SPECIFICATION Spec
CONSTANT NPts = 5
CONSTANT NDim = 1
INVARIANTS NonNegative Conserved OrderFree Merged
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
