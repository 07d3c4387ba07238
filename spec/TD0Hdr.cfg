SPECIFICATION Spec
CONSTANTS
  Bytes = {0, 20, 255}
  Seeds = {0}
  MaxLen = 8
INVARIANTS Stepwise SelfCheck HeaderOK
CHECK_DEADLOCK FALSE
