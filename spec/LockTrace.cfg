SPECIFICATION TSpec
INVARIANTS Exclusive Stable
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
