SPECIFICATION Spec
CONSTANTS Parts = {1, 2, 3}
 MaxVersion = 4
 MaxCrashes = 3
INVARIANTS NeverHalf OldOrNew NotLost Judged Tidy
PROPERTY Ends
CHECK_DEADLOCK FALSE
