SPECIFICATION Spec
INVARIANTS Decodes Adjacent Aligned InMemory OnlyPlaced RoundTrip
CHECK_DEADLOCK FALSE
