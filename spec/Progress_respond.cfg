SPECIFICATION Spec
CONSTANTS
  Reqs = {1, 2}
  Pieces = 2
  Parts = 1
  Hold = "respond"
INVARIANT Exclusive
PROPERTY NobodyWaits
CHECK_DEADLOCK FALSE
