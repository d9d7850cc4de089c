SPECIFICATION Spec
CONSTANTS
  Scenarios = {1, 2, 3}
  MaxSteps = 2
INVARIANT Alike
CHECK_DEADLOCK FALSE
