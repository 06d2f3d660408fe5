SPECIFICATION Spec
CONSTANT NR = 2
CONSTANT NF = 1
CONSTANT MaxLen = 3
CONSTANT Blind = FALSE
INVARIANT SameVerdict Determined
CHECK_DEADLOCK FALSE
