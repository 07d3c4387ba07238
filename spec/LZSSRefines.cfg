SPECIFICATION Spec
CONSTANTS
  N = 8
  F = 3
  T = 1
  Alphabet = {1, 32}
  Pre = 32
  MaxLen = 11
INVARIANTS Lossless Count
PROPERTY Refines
CHECK_DEADLOCK FALSE
