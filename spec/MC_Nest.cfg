SPECIFICATION Spec
CONSTANT Groups <- G
INVARIANTS OutBalanced KeepsOriginals OnlyMissing BalancedUnchanged Idempotent PlacesInOrder RejectsExactly ErrorsName StrayIsStray Report
CHECK_DEADLOCK FALSE
