SPECIFICATION Spec
CONSTANTS Depth = 4
 CacheKey = "full"
INVARIANTS NoContradiction Meant SameForAnyForm Untouched
CHECK_DEADLOCK FALSE
