SPECIFICATION Spec
CONSTANTS NF = 3 MaxLen = 11 Width = 1 Numeric = TRUE
INVARIANT Unchanged
PROPERTY Terminates
CHECK_DEADLOCK FALSE
