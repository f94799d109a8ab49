SPECIFICATION Spec
INVARIANTS EachRowOnce SplitsDisjoint SplitsCover
CHECK_DEADLOCK FALSE
