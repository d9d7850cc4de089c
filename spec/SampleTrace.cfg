SPECIFICATION TraceSpec
INVARIANT Accepted
CONSTANTS
  Chunks = 1
  Least = 10
  Patience = 64
CHECK_DEADLOCK FALSE
