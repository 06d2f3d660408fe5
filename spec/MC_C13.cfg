SPECIFICATION Spec
CONSTANT MaxN = 3
INVARIANTS Concatenates EachOnItsOwn MaskedEverywhere MassOfMaskedIsDefault
PROPERTY Prefix
CHECK_DEADLOCK FALSE
