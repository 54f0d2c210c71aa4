SPECIFICATION Spec
CONSTANTS
 AttrGroups <- As
 KidGroups <- Ks
 Types0 <- Ts
INVARIANTS FramedSame WholeRun ExactlyThatMany NeverFromAttributes Chunks Report
CHECK_DEADLOCK FALSE
