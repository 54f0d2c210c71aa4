SPECIFICATION Spec
CONSTANTS Toks <- T
 Cfgs <- C
 Frames <- F
INVARIANTS Progress Decided KeywordsOnly OtherTable Report
PROPERTY Advances
CHECK_DEADLOCK FALSE
