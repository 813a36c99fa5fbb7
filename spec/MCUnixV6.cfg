SPECIFICATION Spec
INVARIANTS RoundTrip Distinct Sizes
CHECK_DEADLOCK FALSE
