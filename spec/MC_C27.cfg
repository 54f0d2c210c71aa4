SPECIFICATION Spec
INVARIANTS Equivalent CanonicalStays Report
CHECK_DEADLOCK FALSE
