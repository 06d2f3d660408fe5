SPECIFICATION Spec
CONSTANTS NF = 3 MaxLen = 101 Width = 2 Numeric = TRUE
INVARIANT Unchanged
PROPERTY Terminates
CHECK_DEADLOCK FALSE
