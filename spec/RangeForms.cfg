SPECIFICATION Spec
INVARIANTS ReadsBack HandsOK DashSymmetric Emit
CHECK_DEADLOCK FALSE
