SPECIFICATION Spec
CONSTANTS
 GiveUp = 2
 MaxIter = 3
 TolText = "0.1"
 Nan = Nan
INVARIANTS Safe Agree
PROPERTY Implements
CHECK_DEADLOCK FALSE
