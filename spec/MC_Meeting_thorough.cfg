SPECIFICATION Spec
CONSTANTS
 Nranks = 3
 Sizes <- ThreeVols
 Bars = {"meet"}
 Blocksum = 40
INVARIANT Safe
PROPERTY Implements
CHECK_DEADLOCK FALSE
