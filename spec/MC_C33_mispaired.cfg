SPECIFICATION Spec
CONSTANTS NP = 2 MaxN = 3 Design = "mispaired"
INVARIANT Pooled

CHECK_DEADLOCK FALSE
