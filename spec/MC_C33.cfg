SPECIFICATION Spec
CONSTANTS
 AttrGroups <- As
 KidGroups <- Ks
 Types0 <- Ts
INVARIANTS SameText RefusedOnlyForSeveral NeverOpen Report
CHECK_DEADLOCK FALSE
