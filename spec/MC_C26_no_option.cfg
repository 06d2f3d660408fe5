SPECIFICATION Spec
CONSTANTS Depth = 3
 CacheKey = "no_option"
INVARIANTS NoContradiction Meant SameForAnyForm Untouched
CHECK_DEADLOCK FALSE
