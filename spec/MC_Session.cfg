CONSTANTS MaxLen = 3
 MaxSub = 2
SPECIFICATION Spec
INVARIANTS InOrder Agrees
PROPERTY Ends
CHECK_DEADLOCK FALSE
