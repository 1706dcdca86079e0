SPECIFICATION Spec
CONSTANTS
  Mods = 2
  N = 2
  Edits = 3
  Emit = FALSE
  Flaw = "none"
INVARIANTS Kept Own_
VIEW vars
CHECK_DEADLOCK FALSE
