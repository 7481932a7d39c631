SPECIFICATION Spec
CONSTANTS ARCH = "pipe_std" MAX = 12 DEPTH = 4
INVARIANTS Same StopRight
PROPERTIES Refused Ready
CHECK_DEADLOCK FALSE
