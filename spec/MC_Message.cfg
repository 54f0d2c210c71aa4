SPECIFICATION Spec
CONSTANTS Toks <- T
 Cfgs <- C
 Frames <- F
INVARIANTS Progress Decided Report
PROPERTY Advances
CHECK_DEADLOCK FALSE
