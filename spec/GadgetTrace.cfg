SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
