SPECIFICATION TSpec
CONSTANTS
  KIND = "file"
  DIRECT = FALSE
INVARIANTS Settled
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
