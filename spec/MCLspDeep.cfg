SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NeverBack AtRest
CONSTANTS
  Uris = {1, 2}
  Texts = {1}
  MaxMsgs = 6
  Fifo = TRUE
  Guard = TRUE
