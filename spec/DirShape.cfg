SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  MaxOps = 0
  Flaw = "none"
  Emit = FALSE
VIEW View
INVARIANT Lists
PROPERTY Edits
CHECK_DEADLOCK FALSE
