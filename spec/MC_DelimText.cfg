SPECIFICATION Spec
CONSTANTS Alpha = {97, 34, 60, 95, 126, 68, 62, 44, 10}
 MaxCell = 4
 Delims = {44, 58}
INVARIANTS RoundTrip NeverAhead
CHECK_DEADLOCK FALSE
