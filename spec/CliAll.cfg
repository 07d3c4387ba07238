SPECIFICATION Spec
CONSTANTS
  InKinds = {"none", "text", "empty", "one", "c.lzw", "c.lzss_huff", "c.lzhuf-port", "tdn1", "tdn2", "tda1", "tda2", "short", "badcrc", "badsig", "tdbig"}
  OutKinds = {"none", "empty", "one", "text", "long", "nodir"}
  Answers = {"y", "Y", "n", "N", "", "eof", "yes", "n y", "y n", "n\ny", "1", "\ny"}
CHECK_DEADLOCK FALSE
