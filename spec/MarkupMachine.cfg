SPECIFICATION Spec
CONSTANTS
  Char = {1, 38}
  MaxItems = 2
INVARIANTS WholeRendered ShownOnce
CHECK_DEADLOCK FALSE
