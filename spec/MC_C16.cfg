SPECIFICATION Spec
INVARIANTS Complete Reversible PlainIsCopied Bounded Report
PROPERTY RestIsExact
CHECK_DEADLOCK FALSE
