SPECIFICATION Spec
CONSTANTS Toks <- T
 Cfgs <- C
 Frames <- F
INVARIANTS Progress Decided ExpandedOnce NoReferenceNoChange Report
PROPERTY Advances
CHECK_DEADLOCK FALSE
