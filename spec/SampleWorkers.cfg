SPECIFICATION Spec
CONSTANTS
  Workers = {1, 2}
  Means = {0, 1000000}
  Target = 350000000
  Least = 3
  MayCancel = TRUE
  MaxPortions = 5
INVARIANTS Estimate Reason Ends Soon Alone
PROPERTIES AllEnd
CHECK_DEADLOCK FALSE
