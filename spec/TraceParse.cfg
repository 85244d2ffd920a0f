SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Nested Closed0 InRange
