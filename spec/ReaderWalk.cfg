SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  MaxFaults = 2
  MaxCalls = 0
  Flaw = "none"
  Emit = FALSE
VIEW View
INVARIANT InSync
PROPERTIES Refines
CHECK_DEADLOCK FALSE
