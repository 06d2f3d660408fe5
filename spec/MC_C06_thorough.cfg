SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS NonNegative ConstantRate BeforeTable Bounded_
PROPERTY Past
CHECK_DEADLOCK FALSE
