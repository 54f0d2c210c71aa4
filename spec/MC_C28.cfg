SPECIFICATION Spec
INVARIANTS SafeToDrop SilentIsSilent SeenAgrees Report
PROPERTY DetachingStutters
CHECK_DEADLOCK FALSE
