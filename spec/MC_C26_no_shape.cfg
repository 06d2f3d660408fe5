SPECIFICATION Spec
CONSTANTS Depth = 3
 CacheKey = "no_shape"
INVARIANTS NoContradiction Meant SameForAnyForm Untouched
CHECK_DEADLOCK FALSE
