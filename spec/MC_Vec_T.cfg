SPECIFICATION Spec
CONSTANT MaxLen = 8
INVARIANTS RoundTrip Injective Ops Stats
CHECK_DEADLOCK FALSE
