CONSTANT N = 4
SPECIFICATION Spec
INVARIANTS RefusesCycles Right
CHECK_DEADLOCK FALSE
