SPECIFICATION Spec
CONSTANTS
 GiveUp = 2
 MaxIter = 4
 TolText = "0.1"
 Nan = Nan
INVARIANTS Safe Agree
PROPERTY Implements
CHECK_DEADLOCK FALSE
