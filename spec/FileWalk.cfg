SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  MaxCalls = 0
  Flaw = "none"
  Emit = FALSE
VIEW View
INVARIANT Agrees
CHECK_DEADLOCK FALSE
