SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Same Known
