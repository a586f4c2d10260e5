SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK AtMostOnce NotBefore SameForAll GivenNeverRuns Done
CONSTANTS
  Handles = {1, 2, 3}
  MaxLooks = 2
  Depth = 6

