SPECIFICATION Spec
CONSTANTS Depth = 3
 CacheKey = "full"
INVARIANTS NoContradiction Meant SameForAnyForm Untouched
CHECK_DEADLOCK FALSE
