SPECIFICATION Spec
CONSTANTS
  Scenarios = {1, 2, 3}
  Rule = "previous"
  MaxMoves = 3
INVARIANTS Unbiased Start BoardsAlike
CHECK_DEADLOCK FALSE
