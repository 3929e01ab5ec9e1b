SPECIFICATION Spec
CONSTANTS
  Token = {1, 2, 3, 4}
  MaxLen = 3
INVARIANTS SameForTwo SameForAll RunsAreRuns OccursTheSame EndsTheSame
CHECK_DEADLOCK FALSE
