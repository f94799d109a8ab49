SPECIFICATION Spec
INVARIANTS Ordered RoundTrip Near SignKept
CHECK_DEADLOCK FALSE
