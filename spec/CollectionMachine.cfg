SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  Tag = {1, 2}
  Data = {1, 2}
  MaxObjects = 2
  MaxOps = 5
  Printing = FALSE
INVARIANTS Refines OneRow
CHECK_DEADLOCK FALSE
