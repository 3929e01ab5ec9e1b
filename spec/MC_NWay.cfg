SPECIFICATION NSpec
CONSTANTS
  Token = {1, 2}
  MaxText = 0
  MaxOther = 0
  MaxLists = 3
  MaxLen = 3
INVARIANTS FindsNWay
CHECK_DEADLOCK FALSE
