SPECIFICATION Spec
CONSTANT MaxN = 4
INVARIANTS Concatenates EachOnItsOwn MaskedEverywhere MassOfMaskedIsDefault
PROPERTY Prefix
CHECK_DEADLOCK FALSE
