SPECIFICATION Spec
INVARIANTS ClosedForm  Report
ALIAS Alias
CHECK_DEADLOCK FALSE
