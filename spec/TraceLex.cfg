SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Inside
PROPERTIES Progress
