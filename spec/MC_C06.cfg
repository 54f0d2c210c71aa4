SPECIFICATION Spec
CONSTANTS Toks <- T
 Cfgs <- C
 Frames <- F
INVARIANTS Progress Decided Literal IgnoreVanishes Unterminated Report
PROPERTY Advances
CHECK_DEADLOCK FALSE
