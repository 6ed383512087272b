SPECIFICATION SSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
