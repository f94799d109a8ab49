SPECIFICATION Spec
INVARIANTS DistinctWhenItFits SeenIsKept
CHECK_DEADLOCK FALSE
