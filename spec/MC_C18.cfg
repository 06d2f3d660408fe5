SPECIFICATION Spec
CONSTANT NStep = 12
INVARIANTS Between BeforeInfall Saturated Corner DelayBetween HalfAtDelay
PROPERTY NeverLess
CHECK_DEADLOCK FALSE
