SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Handles = {1, 2, 3}
  MaxLooks = 2
  Depth = 6

