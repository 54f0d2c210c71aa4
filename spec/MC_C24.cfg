SPECIFICATION Spec
CONSTANTS
 AttrGroups <- As
 KidGroups <- Ks
 Types0 <- Ts
INVARIANTS FramedSame NamedVariant FollowersKept Report
CHECK_DEADLOCK FALSE
