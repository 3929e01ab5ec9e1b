SPECIFICATION Spec
CONSTANTS
  Base = 19
  Runs <- SomeRuns
  Marks = {0, 1, 3, 4, 200}
  MaxItems = 3
INVARIANTS ReadsLeading WholeReadsAll
CHECK_DEADLOCK FALSE
