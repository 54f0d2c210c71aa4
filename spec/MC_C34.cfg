SPECIFICATION Spec
INVARIANTS OnTheirOwn Together AtTheEnd Report
CHECK_DEADLOCK FALSE
