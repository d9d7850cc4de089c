SPECIFICATION Spec
INVARIANTS AddOK MulOK CmpOK SubOK QuotOK RingOK PowOK
CHECK_DEADLOCK FALSE
