SPECIFICATION Spec
CONSTANT NR = 3
CONSTANT NF = 2
CONSTANT MaxLen = 2
CONSTANT Blind = FALSE
INVARIANT SameVerdict Determined
CHECK_DEADLOCK FALSE
