SPECIFICATION Spec
INVARIANTS SameShape Contained Report
CHECK_DEADLOCK FALSE
