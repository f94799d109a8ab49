SPECIFICATION Spec
CONSTANTS MaxRows = 4
 Keys = {1,2,3}
 Vals = {1,2}
INVARIANTS DistinctWhenItFits SeenIsKept
PROPERTIES AppendOnly ReadOnly
CHECK_DEADLOCK FALSE
