SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Undamaged NeverAccusedWithoutReason Truths Single PutNamed Report
