SPECIFICATION Spec
CONSTANTS
  Content = {1, 2}
  MaxVersions = 5
  Linear = FALSE
  Printing = FALSE
INVARIANTS Retrievable PathsRight Held HeldOnce TwoChildren MemRefines DBRefines SameSizes
CHECK_DEADLOCK FALSE
