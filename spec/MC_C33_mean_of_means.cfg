SPECIFICATION Spec
CONSTANTS NP = 2 MaxN = 3 Design = "mean_of_means"
INVARIANT Pooled

CHECK_DEADLOCK FALSE
