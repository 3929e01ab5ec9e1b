SPECIFICATION Spec
CONSTANTS
  Char = {91, 92, 93, 97}
  MaxText = 2
  MaxItems = 2
INVARIANTS WellFormed AllShown
CHECK_DEADLOCK FALSE
