SPECIFICATION Spec
INVARIANTS Forms Neighbours Report
CHECK_DEADLOCK FALSE
