SPECIFICATION Spec
INVARIANTS Rejected  Report
CHECK_DEADLOCK FALSE
