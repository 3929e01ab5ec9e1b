SPECIFICATION Spec
CONSTANTS
  Char = {1, 10}
  MaxText = 2
  MaxItems = 4
INVARIANTS RoundTrip RoundTripLines
CHECK_DEADLOCK FALSE
