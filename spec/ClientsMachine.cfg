SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  MaxVersions = 4
  MaxLooks = 2
  Printing = FALSE
INVARIANTS SameForAll
CHECK_DEADLOCK FALSE
