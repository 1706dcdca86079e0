SPECIFICATION Spec
CONSTANTS
  Lengths = 1
  Ts = {0, 9, 14}
  Faults = TRUE
  Flaw = "none"
  Emit = FALSE
VIEW View
INVARIANTS SameMap SameKind Counters
PROPERTIES Fails Absent NoBigNode
CHECK_DEADLOCK FALSE
