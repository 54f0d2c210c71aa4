SPECIFICATION Spec
INVARIANT Readable Conforms
ALIAS Alias
CHECK_DEADLOCK FALSE
