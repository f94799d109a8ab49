SPECIFICATION Spec
INVARIANT SameAnswer
INVARIANT OwnLabels
INVARIANT DatasetsKept
PROPERTY Kept
CHECK_DEADLOCK FALSE
