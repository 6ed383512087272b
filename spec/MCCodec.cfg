SPECIFICATION MSpec
CONSTANTS
 FULL = FALSE
INVARIANTS Readable Uncut Local Within Again
CHECK_DEADLOCK FALSE
