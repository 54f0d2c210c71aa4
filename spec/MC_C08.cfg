SPECIFICATION Spec
CONSTANTS Toks <- T
 Cfgs <- C
 Frames <- F
INVARIANTS Progress Decided StrongestKeyword OnlyCharacterData KeptVerbatim Report
PROPERTY Advances
CHECK_DEADLOCK FALSE
