SPECIFICATION Spec
CONSTANTS Toks <- T
 Cfgs <- C
 Frames <- F
INVARIANTS Progress Decided InRange PrefixAcceptable Report
PROPERTY Advances
CHECK_DEADLOCK FALSE
