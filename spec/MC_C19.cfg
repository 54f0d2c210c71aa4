SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Beyond = 2
INVARIANTS Complete Ordered NoEditsNoChange OnlyEmptyIsEmpty Commutes StateDetermines Report
CHECK_DEADLOCK FALSE
