SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS EachRowOnce SplitsDisjoint SplitsCover FullPass
CHECK_DEADLOCK FALSE
