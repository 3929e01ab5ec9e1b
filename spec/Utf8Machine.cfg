SPECIFICATION Spec
CONSTANTS
  MaxChars = 3
  PartSize <- SmallParts
INVARIANTS Read NoCarriage OtherwiseKept
CHECK_DEADLOCK FALSE
