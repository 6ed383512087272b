SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Objects = {1, 2}
  ROUNDS = 1
INVARIANTS Exclusive Stable Settled Tracked
CHECK_DEADLOCK TRUE
