SPECIFICATION Spec
CONSTANTS
 Nranks = 2
 Sizes <- TwoVols
 Bars = {"meet"}
 Blocksum = 12
INVARIANT Safe
PROPERTY Implements
CHECK_DEADLOCK FALSE
