SPECIFICATION Spec
CONSTANTS
  Token = {1, 2, 3}
  MaxText = 5
  MaxOther = 4
INVARIANTS RecognisesSubstrings RecognisesSuffixes SmallEnough FindsOccurrences FindsLcs
CHECK_DEADLOCK FALSE
