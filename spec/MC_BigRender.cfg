SPECIFICATION Spec
INVARIANTS Proper  ClosedForm  RoundTrip  Report
ALIAS Alias
CHECK_DEADLOCK FALSE
