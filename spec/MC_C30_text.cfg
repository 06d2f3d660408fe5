SPECIFICATION Spec
CONSTANTS NF = 3 MaxLen = 11 Width = 1 Numeric = FALSE
INVARIANT Unchanged
CHECK_DEADLOCK FALSE
