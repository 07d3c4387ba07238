SPECIFICATION Spec
CONSTANTS
  NFiles = 2
  Length = 1000
  Kinds = {"text", "tdn1", "badcrc"}
  Answers = {"y", "n"}
  Show = FALSE
INVARIANTS OnlyOutput NoConsent Refused Faithful
VIEW View
CHECK_DEADLOCK FALSE
