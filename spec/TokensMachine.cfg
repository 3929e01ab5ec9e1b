SPECIFICATION Spec
CONSTANTS
  Char = {1, 2, 10, 33}
  MaxText = 3
  MaxTexts = 2
INVARIANTS SessionIsRight DiffSpells
CHECK_DEADLOCK FALSE
