SPECIFICATION TSpec
INVARIANT TInv
CHECK_DEADLOCK FALSE
