SPECIFICATION FSpec
CONSTANTS
  Names = {1, 2}
  MaxManifests = 3
  MaxFailures = 2
  Printing = FALSE
INVARIANTS Right OnlyTwoChildren
CHECK_DEADLOCK FALSE
