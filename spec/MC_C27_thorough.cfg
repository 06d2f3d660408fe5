SPECIFICATION Spec
CONSTANTS
 MaxR = 4
 MaxN = 4
 MaxV = 1
 Bars = {"meet"}
 Glob = FALSE
 Export = TRUE
INVARIANTS Partition Whole Kept Once Every Ordered NoDeadlock
CHECK_DEADLOCK FALSE
