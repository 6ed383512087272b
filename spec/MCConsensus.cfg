SPECIFICATION Spec
CONSTANTS
  MAXH = 1400000
  MAXD = 400
  FULL = FALSE
INVARIANTS Bounded
PROPERTIES Versions Shares
CHECK_DEADLOCK FALSE
