SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OpenIsLast
CONSTANTS
  Names = {97, 98}
  MaxPath = 3
  MaxLen = 4
