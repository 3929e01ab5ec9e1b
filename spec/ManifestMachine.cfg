SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  MaxManifests = 3
  Printing = FALSE
INVARIANTS Right OnlyTwoChildren
CHECK_DEADLOCK FALSE
