SPECIFICATION Spec
CONSTANTS
 Playing = {0, 1, 4, 6}
 MaxHands = 3
 MaxBlocked = 1
 MaxSteps = 3
 Emit = FALSE
INVARIANTS HandsOK WeightsOK OrderOK FirstOK OnceOK Orders Emitted
CHECK_DEADLOCK FALSE
VIEW View
