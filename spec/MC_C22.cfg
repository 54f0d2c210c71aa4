SPECIFICATION Spec
CONSTANTS
 AttrGroups <- As
 KidGroups <- Ks
 Types0 <- Ts
INVARIANTS FramedSame UnknownIgnored OrderIrrelevant OncePerField AllEntries Report
CHECK_DEADLOCK FALSE
