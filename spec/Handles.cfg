SPECIFICATION GSpec
CONSTANTS
  Names = 4
  Steps = 3
  Emit = FALSE
INVARIANT Apart
VIEW gvars
CHECK_DEADLOCK FALSE
