SPECIFICATION Spec
CONSTANTS MaxR = 4 MaxN = 4 Design = "right"
INVARIANT Rows
PROPERTY Terminates
CHECK_DEADLOCK FALSE
