CONSTANTS Vals = {1, 2}
 MaxRows = 3
 MaxCrashes = 2
SPECIFICATION FairSpec
INVARIANTS NeverHalfMade NothingLeft
PROPERTIES SourceKept OnceMadeKept EventuallyMade
CHECK_DEADLOCK FALSE
