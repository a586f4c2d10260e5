SPECIFICATION Spec
INVARIANT Sound
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
