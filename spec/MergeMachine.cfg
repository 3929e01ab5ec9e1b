SPECIFICATION Spec
CONSTANTS
  ParentLen = 3
  Words <- TinyWords
INVARIANTS Form Bounds CleanExactly LongSame Symmetric Trivial Equivariant
CHECK_DEADLOCK FALSE
