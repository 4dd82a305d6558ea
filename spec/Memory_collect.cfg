CONSTANTS
  Ups = {1, 2}
  Downs = {3}
  Size = 9
  Window = 2
  Mode = "collect"
SPECIFICATION Spec
INVARIANT Bounded
CHECK_DEADLOCK FALSE
