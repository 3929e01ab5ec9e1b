SPECIFICATION RSpec
CONSTANTS
  Token = {1, 2, 3}
  MaxLen = 3
INVARIANTS Follows SameChoices TwinIsRight
CHECK_DEADLOCK FALSE
