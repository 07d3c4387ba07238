SPECIFICATION Spec
CONSTANTS
  NVal = 2
  Codecs = {"lzss:std", "port"}
  MaxCalls = 4
INVARIANTS Exact Sharp
CHECK_DEADLOCK FALSE
