SPECIFICATION Spec
CONSTANTS
  BAN = 3
  RETRY = 1
  WEEK = 2
  P = {1}
  MAXT = 5
INVARIANTS BanKept NotHandedOut
PROPERTIES Picked
CHECK_DEADLOCK FALSE
