SPECIFICATION Spec
INVARIANT Equivalent Conforms
ALIAS Alias
CHECK_DEADLOCK FALSE
