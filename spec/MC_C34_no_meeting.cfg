SPECIFICATION Spec
CONSTANTS MaxR = 3 MaxN = 3 Design = "no_meeting"
INVARIANT Rows
CHECK_DEADLOCK FALSE
