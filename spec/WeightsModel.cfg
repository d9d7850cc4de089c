SPECIFICATION Spec
CONSTANTS
  Factors = {2, 3, 7}
  Amounts = {0, 1, 2, 5}
  Starts = {0, 1, 2}
  MaxSteps = 2
INVARIANTS Same InProportion
CHECK_DEADLOCK FALSE
