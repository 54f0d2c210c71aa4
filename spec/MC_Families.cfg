SPECIFICATION Spec
INVARIANTS Regular Report
ALIAS Alias
CHECK_DEADLOCK FALSE
