SPECIFICATION Spec
INVARIANTS IndexOK BlockOK AtOK KindOK Emit
CHECK_DEADLOCK FALSE
