SPECIFICATION Spec
CONSTANTS
 N=6
 F=2
 T=1
 Pre=0
 Alphabet={0,1}
 Hist=TRUE
 Emit=TRUE
VIEW View
INVARIANTS Decodable
CHECK_DEADLOCK FALSE
