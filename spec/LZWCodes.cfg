SPECIFICATION Spec
CONSTANTS
  MaxItems = 6
  Emit = TRUE
VIEW View
INVARIANTS TableOK PrevOK
CHECK_DEADLOCK FALSE
