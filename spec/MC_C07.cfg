SPECIFICATION Spec
CONSTANTS Toks <- T
 Cfgs <- C
 Frames <- F
INVARIANTS Progress Decided Transparent InvalidNotSkipped Report
PROPERTY Advances
CHECK_DEADLOCK FALSE
