SPECIFICATION Spec
CONSTANTS MaxCards = 7  Dump = FALSE  CheckBest = TRUE
INVARIANTS CategoryOK BestOK PartialOK
CHECK_DEADLOCK FALSE
