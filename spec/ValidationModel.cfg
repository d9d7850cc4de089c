SPECIFICATION Spec
CONSTANTS
  MaxPlayers = 13
  MaxBoard = 7
  Whys = {"dealable", "empty", "blocked", "weightless", "same hand", "too few cards"}
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
