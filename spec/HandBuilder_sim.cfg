SPECIFICATION SimSpec
CONSTANTS MaxCards = 7  BuildDeck <- Deck
INVARIANTS IsSetOfNamed SizeOK SuitsAddUp OneFlush Emit
CHECK_DEADLOCK FALSE
