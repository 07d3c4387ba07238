SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Hist = TRUE
  Emit = TRUE

INVARIANTS InSync Lossless
CHECK_DEADLOCK FALSE
