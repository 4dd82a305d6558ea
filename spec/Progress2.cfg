SPECIFICATION Spec
CONSTANTS
  Reqs = {1, 2}
  Pieces = 2
  Parts = 1
  Hold = "commit"
INVARIANT Exclusive
PROPERTY NobodyWaits
CHECK_DEADLOCK FALSE
