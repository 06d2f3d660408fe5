SPECIFICATION Spec
CONSTANTS
 MaxR = 6
 MaxN = 7
 MaxV = 1
 Bars = {"meet"}
 Glob = FALSE
 Export = FALSE
INVARIANTS Partition Whole Kept Once Every Ordered NoDeadlock
CHECK_DEADLOCK FALSE
