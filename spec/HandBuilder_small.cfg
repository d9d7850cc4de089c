SPECIFICATION Spec
CONSTANTS MaxCards = 5  BuildDeck = {0, 4, 8, 12, 16, 17}
INVARIANTS IsSetOfNamed SizeOK SuitsAddUp OneFlush
CHECK_DEADLOCK FALSE
