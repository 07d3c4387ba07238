SPECIFICATION Spec
CONSTANTS
  NSyms = 4
  Thresh = 20
VIEW View
INVARIANTS WellFormed Decodable SameTables Bounded Counted CodesShort
CHECK_DEADLOCK FALSE
