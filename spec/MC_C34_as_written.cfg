SPECIFICATION Spec
CONSTANTS MaxR = 3 MaxN = 3 Design = "as_written"
INVARIANT Rows
CHECK_DEADLOCK FALSE
