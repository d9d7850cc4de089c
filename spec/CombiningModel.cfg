SPECIFICATION Spec
INVARIANTS PartitionOK ExactOK FinalOK FoundOut
PROPERTY Terminates
CONSTANTS
  Players = 4
  Deck = {0, 1, 2, 3, 4, 5, 6, 7, 8}
  Limit = 7
  Hands = 3
  Tries = 60
CHECK_DEADLOCK FALSE
