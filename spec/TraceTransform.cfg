SPECIFICATION Spec
INVARIANTS EmptyAgrees Conforms
ALIAS Alias
CHECK_DEADLOCK FALSE
