SPECIFICATION Spec
INVARIANTS LastWins Commute SameAgain Report
PROPERTY Fixed
CHECK_DEADLOCK FALSE
