SPECIFICATION Spec
CONSTANTS MaxR = 3 N = 4 Quota = 1 Meets = TRUE Overlap = FALSE
INVARIANTS EachOnce Samples Disjoint NeverUnwritten
PROPERTY Terminates
CHECK_DEADLOCK FALSE
