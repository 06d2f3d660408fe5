SPECIFICATION Spec
CONSTANTS NP = 2 MaxN = 3 Design = "pooled"
INVARIANT Pooled
PROPERTY Terminates
CHECK_DEADLOCK FALSE
