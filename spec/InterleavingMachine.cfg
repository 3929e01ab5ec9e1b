SPECIFICATION Spec
CONSTANTS
  Calls = {1, 2}
  Length = 3
  MaxSteps = 5
  MaxResults = 3
  Printing = FALSE
INVARIANTS Independent Again
CHECK_DEADLOCK FALSE
