SPECIFICATION Spec
CONSTANTS
  N = 3
  Ahead = 2
  Ops = 2
  Flaw = "none"
INVARIANT Good
PROPERTY Ends
CHECK_DEADLOCK FALSE
