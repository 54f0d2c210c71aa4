SPECIFICATION Spec
CONSTANTS Toks <- T
 Cfgs <- C
 Frames <- F
INVARIANTS Progress Decided InRange  Report
PROPERTY Advances
CHECK_DEADLOCK FALSE
