SPECIFICATION Spec
CONSTANTS Toks <- T
 Tabs <- Tb
INVARIANTS NoReference OtherKindIgnored Compositional FailureExact TotalWhenDefined Report
PROPERTY Advance
CHECK_DEADLOCK FALSE
