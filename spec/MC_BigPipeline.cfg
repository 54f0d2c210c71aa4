SPECIFICATION Spec
INVARIANTS ClosedForm  Equivalent  CanonicalStays  Report
ALIAS Alias
CHECK_DEADLOCK FALSE
