SPECIFICATION SSpec
INVARIANT TInv
CHECK_DEADLOCK FALSE
