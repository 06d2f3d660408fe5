SPECIFICATION Spec
CONSTANTS MaxR = 3 MaxN = 3 Design = "local"
INVARIANT Rows
CHECK_DEADLOCK FALSE
