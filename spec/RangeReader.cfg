SPECIFICATION Spec
CONSTANTS Alphabet = {97, 107, 50, 115, 104, 111, 43, 45, 64, 44, 49}  MaxLen = 5  Dump = TRUE
INVARIANTS PosOK ReadOK RangeOK ItemsOK Idempotent Emit
PROPERTIES Forward
CHECK_DEADLOCK FALSE
