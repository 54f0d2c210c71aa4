SPECIFICATION Spec
INVARIANTS SameEverywhere NeighboursKept Exact Strings Present Missing1 Report
CHECK_DEADLOCK FALSE
