SPECIFICATION Spec
CONSTANTS
 Nranks = 2
 Sizes <- TwoVols
 Bars = {"loop"}
 Blocksum = 12
INVARIANT Safe
PROPERTY Implements
CHECK_DEADLOCK FALSE
