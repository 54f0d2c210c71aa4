SPECIFICATION Spec
INVARIANTS ClosedForm Settled Report
ALIAS Alias
CHECK_DEADLOCK FALSE
