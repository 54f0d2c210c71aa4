SPECIFICATION Spec
CONSTANTS Toks <- T
 Cfgs <- C
 Frames <- F
INVARIANTS Progress Decided Sound NoContentRejected Report
PROPERTY Advances
CHECK_DEADLOCK FALSE
