SPECIFICATION TSpec
CONSTANTS
  SPENDS = TRUE
INVARIANTS Sizes
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
