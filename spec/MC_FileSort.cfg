SPECIFICATION Spec
CONSTANT N = 5
INVARIANT MergeCorrect
CHECK_DEADLOCK FALSE
