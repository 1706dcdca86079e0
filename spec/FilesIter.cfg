SPECIFICATION Spec
CONSTANTS
  N = 4
  Room = 2
  Flaw = "none"
INVARIANT Good
PROPERTY Ends
CHECK_DEADLOCK FALSE
