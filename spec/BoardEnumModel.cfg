SPECIFICATION Spec
CONSTANTS
  Ranks = {0, 1, 2}
  Suits = {0, 1, 2}
  BoardSize = 3
  FlushSize = 3
  MaxPlayers = 2
  MaxDead = 0
  Slip = 0
INVARIANT StandsForAll
CHECK_DEADLOCK FALSE
