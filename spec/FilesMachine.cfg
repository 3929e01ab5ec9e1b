SPECIFICATION Spec
CONSTANTS
  Paths = {1, 2}
  MaxRuns = 2
  Printing = FALSE
INVARIANTS OnlyOutputs KeepsDirectories NoneRemoved
CHECK_DEADLOCK FALSE
