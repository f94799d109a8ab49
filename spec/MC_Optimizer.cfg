CONSTANTS MaxUpdates = 5
SPECIFICATION Spec
INVARIANTS Own Bounded SqrtRight Signs
CHECK_DEADLOCK FALSE
