SPECIFICATION Spec
CONSTANTS
 MaxR = 3
 MaxN = 3
 MaxV = 1
 Bars = {"loop"}
 Glob = FALSE
 Export = FALSE
INVARIANTS Partition Whole Kept Once Every Ordered NoDeadlock
CHECK_DEADLOCK FALSE
