SPECIFICATION Spec
CONSTANTS
  Values = {1, 2}
  Pattern = 1
  Flaw = "none"
  Emit = FALSE
VIEW View
INVARIANTS Canonical ChildrenFirst
PROPERTIES Answers Retry
CHECK_DEADLOCK FALSE
