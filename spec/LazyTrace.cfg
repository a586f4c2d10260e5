SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK AtMostOnce NotBefore SameForAll GivenNeverRuns Follows
CONSTANTS
  Handles = {1, 2, 3}
  MaxLooks = 2
  Depth = 6

