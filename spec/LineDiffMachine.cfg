SPECIFICATION Spec
CONSTANTS
  Char = {1, 10}
  MaxText = 2
  MaxItems = 4
INVARIANTS Right NothingLost
CHECK_DEADLOCK FALSE
