SPECIFICATION Spec
CONSTANTS
  Batch = 2
  Low = 1
  Deep = FALSE
  Flaw = "none"
INVARIANT Local
CHECK_DEADLOCK FALSE
