SPECIFICATION Spec
CONSTANTS MaxR = 2 N = 3 Quota = 1 Meets = TRUE Overlap = FALSE
INVARIANTS EachOnce Samples Disjoint NeverUnwritten
PROPERTY Terminates
CHECK_DEADLOCK FALSE
