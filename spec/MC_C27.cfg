SPECIFICATION Spec
CONSTANTS
 MaxR = 3
 MaxN = 3
 MaxV = 1
 Bars = {"meet"}
 Glob = FALSE
 Export = TRUE
INVARIANTS Partition Whole Kept Once Every Ordered NoDeadlock
PROPERTY Terminates
CHECK_DEADLOCK FALSE
