SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS TableAgrees NonNegative Monotone Linear
PROPERTY Prefix
CHECK_DEADLOCK FALSE
