SPECIFICATION Spec
CONSTANTS
  Token = {1, 2}
  MaxLen = 4
INVARIANTS DiffIsRight KeepsLongest PatchesWork GetsOn
CHECK_DEADLOCK FALSE
