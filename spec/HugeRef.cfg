SPECIFICATION Spec
CONSTANTS
  Base = 4
  MaxLen = 9
  Edits = 2
  Flaw = "none"
INVARIANTS Same Numbers
CHECK_DEADLOCK FALSE
