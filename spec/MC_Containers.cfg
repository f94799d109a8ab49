SPECIFICATION Spec
INVARIANTS Bounded MostRecent Prefixes
CHECK_DEADLOCK FALSE
