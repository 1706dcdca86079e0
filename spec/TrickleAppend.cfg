SPECIFICATION Spec
CONSTANTS
  MaxLeaves = 14
  Widths = {1, 2, 3}
  Flaw = "none"
  Emit = FALSE
VIEW Shape_
INVARIANTS Content Structure Atonce
PROPERTIES Shares Empty
CHECK_DEADLOCK FALSE
