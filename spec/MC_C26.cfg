SPECIFICATION Spec
INVARIANTS OkIsNested UnbalancedIsError NothingThere Unsupported Report
CHECK_DEADLOCK FALSE
