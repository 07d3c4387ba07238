SPECIFICATION Spec
CONSTANTS
  Bytes = {0, 1, 84, 116, 128, 255}
  Seeds = {0, 1, 65535, 41111}
  MaxLen = 4
INVARIANTS Meaning Stepwise Detects SelfCheck
CHECK_DEADLOCK FALSE
