SPECIFICATION Spec
CONSTANTS
 AttrGroups <- As
 KidGroups <- Ks
 Types0 <- Ts
INVARIANTS FramedSame TextIsValue WrapperIrrelevant ElementsAreValue AttributesAreFields Report
CHECK_DEADLOCK FALSE
