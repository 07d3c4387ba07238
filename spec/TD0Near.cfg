SPECIFICATION Spec
CONSTANTS
  Bytes = {0, 20, 130, 255}
  Tails = {0, 6}
INVARIANTS CutOK RightOK WrongOK Show
CHECK_DEADLOCK FALSE
