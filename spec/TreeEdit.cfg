SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Edits = 1
  Emit = FALSE
  Flaw = "none"
INVARIANTS Edited Sizes Kept ChildrenFirst Stored
VIEW vars
CHECK_DEADLOCK FALSE
