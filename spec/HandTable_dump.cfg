SPECIFICATION Spec
CONSTANTS MaxCards = 7  Dump = TRUE  CheckBest = FALSE
INVARIANTS Emit CategoryOK PartialOK
CHECK_DEADLOCK FALSE
