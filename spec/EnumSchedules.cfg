SPECIFICATION SSpec
CONSTANTS
  Workers = {1, 2, 3}
  Total = 5
  Batch = 1
  Limit = 1
  Patience = 99
  Costs = {1}
  MayCancel = FALSE
  Exactly = TRUE
INVARIANTS Emit AccountedOK ReturnFine
CHECK_DEADLOCK FALSE
