SPECIFICATION Spec
CONSTANTS ARCH = "seq_std" MAX = 12 DEPTH = 8
INVARIANTS Same StopRight
PROPERTIES Refused Ready
CHECK_DEADLOCK FALSE
