CONSTANTS N = 4
 MaxEdges = 6
SPECIFICATION Spec
INVARIANTS ValuesAgree ReturnAgrees NothingLeft AlwaysWhole
PROPERTY Ends
CHECK_DEADLOCK FALSE
