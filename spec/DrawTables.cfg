SPECIFICATION Spec
INVARIANTS Sane NutSane FlushSane Emit
CHECK_DEADLOCK FALSE
