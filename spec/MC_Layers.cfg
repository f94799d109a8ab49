SPECIFICATION Spec
INVARIANT DerivativesRight
CHECK_DEADLOCK FALSE
