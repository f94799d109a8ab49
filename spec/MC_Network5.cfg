CONSTANTS N = 5
 MaxEdges = 8
SPECIFICATION Spec
INVARIANTS ValuesAgree ReturnAgrees NothingLeft AlwaysWhole
PROPERTY Ends
CHECK_DEADLOCK FALSE
