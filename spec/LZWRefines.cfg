SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Hist = TRUE
  Emit = FALSE
INVARIANTS InSync Lossless
PROPERTY Refines
CHECK_DEADLOCK FALSE
