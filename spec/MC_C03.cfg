SPECIFICATION Spec
CONSTANTS Toks <- T
 Cfgs <- C
 Frames <- F
INVARIANTS Progress Decided Canonical Sound Report
PROPERTY Advances
CHECK_DEADLOCK FALSE
