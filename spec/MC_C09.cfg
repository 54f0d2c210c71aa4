SPECIFICATION Spec
CONSTANTS Toks <- T
 Cfgs <- C
 Frames <- F
INVARIANTS Progress Decided IgnoreIsFiltering KeptInFull DeclarationsOnlyInProlog Report
PROPERTY Advances
CHECK_DEADLOCK FALSE
