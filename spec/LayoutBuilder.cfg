SPECIFICATION Spec
CONSTANTS
  MaxChunks = 22
  Widths = {1, 2, 3, 4}
  Layouts = {"balanced", "trickle"}
  Same = FALSE
  Flaw = "none"
  Emit = FALSE
INVARIANTS ChildrenFirst Canonical Complete InOrder
PROPERTY Ends
CHECK_DEADLOCK FALSE
