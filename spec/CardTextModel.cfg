SPECIFICATION Spec
CONSTANTS Alphabet = {65, 97, 50, 115, 83, 32}  MaxLen = 7  MaxCards = 3
INVARIANTS RoundTrip OneText FlopRoundTrip OnlyWritten Agree
CHECK_DEADLOCK FALSE
