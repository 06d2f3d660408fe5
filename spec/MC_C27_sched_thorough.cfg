SPECIFICATION SSpec
CONSTANTS
 MaxR = 2
 MaxN = 2
 MaxV = 1
 Bars = {"meet"}
 Glob = FALSE
 Export = FALSE
INVARIANTS Whole Kept Once Every Ordered NoDeadlock
CHECK_DEADLOCK FALSE
