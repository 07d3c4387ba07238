SPECIFICATION GSpec
CONSTANTS
  NFiles = 4
  Length = 14
  Kinds = {"text", "noise", "runs", "empty", "one", "tdn1", "tdn2", "tda1", "tda2", "short", "badcrc", "badsig", "long"}
  Answers = {"y", "Y", "n", "N", "", "eof", "yes", "no", "yy", "Yes", "x", "ny", "n y", "y n", "n\ny", "\ny", "yno", "ok", "1"}
  Show = TRUE
INVARIANTS OnlyOutput NoConsent Refused Faithful
CHECK_DEADLOCK FALSE
