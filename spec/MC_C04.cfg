SPECIFICATION Spec
CONSTANTS Toks <- T
 Cfgs <- C
 Frames <- F
INVARIANTS Progress Decided TextComplete Report
PROPERTY Advances
CHECK_DEADLOCK FALSE
