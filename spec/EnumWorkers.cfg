SPECIFICATION Spec
CONSTANTS
  Workers = {1, 2}
  Total = 3
  Batch = 2
  Limit = 2
  Patience = 3
  Costs = {0, 1, 2}
  MayCancel = TRUE
  Exactly = FALSE
INVARIANTS AccountedOK LockedOK ProgressFine ReturnFine SoonOK NoDeadlock
PROPERTIES Ends Refines
CHECK_DEADLOCK FALSE
