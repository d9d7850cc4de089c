SPECIFICATION Spec
CONSTANTS
 Vars = {1, 2}
 Tokens = {1}
 Slots = {1, 2}
 Menu = {"2s2h", "2h2c,3s3h@0"}
 Playing = {0, 5}
 BoardSizes = {1}
 DeadSizes = {0}
 MaxPlayers = 2
 Threads = {1}
 Weights = {5}
 Kinds = {"exact"}
 MaxCost = 1000000000
 MaxSteps = 4
 Emit = FALSE
INVARIANTS RangesOK OutcomesOK OrderOK FilterOK CutOK Emitted
PROPERTY InputsKept
CHECK_DEADLOCK FALSE
VIEW View
