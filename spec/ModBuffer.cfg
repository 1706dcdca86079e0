SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  BufMax = 4
  MaxCalls = 0
  Faults = FALSE
  Flaw = "none"
  Emit = FALSE
VIEW View
INVARIANTS Content Reader
PROPERTIES Answers
CHECK_DEADLOCK FALSE
