SPECIFICATION CSpec
CONSTANTS
  Token = {1, 2, 3}
  MaxText = 7
  MaxOther = 4
INVARIANTS FewStates FewEdges Amortised SearchAmortised
CHECK_DEADLOCK FALSE
