SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS RoundTrip Injective Ops Stats
CHECK_DEADLOCK FALSE
