CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS RefusesCycles Right
CHECK_DEADLOCK FALSE
