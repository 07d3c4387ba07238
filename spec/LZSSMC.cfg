SPECIFICATION Spec
CONSTANTS
  N = 6
  F = 2
  T = 1
  Pre = 0
  Alphabet = {0, 1}
  Hist = FALSE
  Emit = FALSE
INVARIANTS Decodable SameWindow TreeOK Rooted MatchOK
CHECK_DEADLOCK FALSE
