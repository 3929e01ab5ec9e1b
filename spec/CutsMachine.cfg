SPECIFICATION Spec
CONSTANTS
  MaxVersions = 6
  Printing = FALSE
INVARIANTS Survive
CHECK_DEADLOCK FALSE
