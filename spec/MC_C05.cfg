SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS TableAgrees NonNegative Monotone Linear
PROPERTY Prefix
CHECK_DEADLOCK FALSE
