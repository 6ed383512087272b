SPECIFICATION TSpec
CONSTANTS
  BAN = 10800
  RETRY = 300
  WEEK = 604800
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
