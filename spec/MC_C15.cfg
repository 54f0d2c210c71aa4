SPECIFICATION Spec
INVARIANTS RoundTrip Stable Report
CHECK_DEADLOCK FALSE
