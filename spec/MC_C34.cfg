SPECIFICATION Spec
CONSTANTS MaxR = 3 MaxN = 3 Design = "right"
INVARIANT Rows
PROPERTY Terminates
CHECK_DEADLOCK FALSE
