SPECIFICATION Spec
CONSTANTS
  Workers = 2
  Tree = 2
  Flaw = "none"
INVARIANT Good
PROPERTY Ends
CHECK_DEADLOCK FALSE
