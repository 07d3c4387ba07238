SPECIFICATION Spec
CONSTANTS
  MaxLen = 1000000
  Hist = FALSE
  Emit = FALSE

INVARIANTS ConfigsOK InSync TablesAgree TableOK MatchOK ChunkOK
CHECK_DEADLOCK FALSE
