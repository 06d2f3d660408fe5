SPECIFICATION Spec
CONSTANTS
 MaxR = 3
 MaxN = 2
 MaxV = 2
 Bars = {"meet"}
 Glob = TRUE
 Export = FALSE
INVARIANTS Partition Whole Kept Once Every Ordered NoDeadlock
CHECK_DEADLOCK FALSE
