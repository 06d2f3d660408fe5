SPECIFICATION Spec
CONSTANT NR = 2
CONSTANT NF = 2
CONSTANT MaxLen = 3
CONSTANT Blind = FALSE
INVARIANT SameVerdict Determined
CHECK_DEADLOCK FALSE
