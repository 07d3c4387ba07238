SPECIFICATION Spec
CONSTANTS
  MaxLen = 1000000
  Hist = TRUE
  Emit = TRUE
VIEW View
INVARIANTS InSync Lossless
CHECK_DEADLOCK FALSE
