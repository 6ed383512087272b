CONSTANTS
  Reward = 600000
  Maturity = 25
  MaxWeight = 40000
  Version = 1

SPECIFICATION TSpec
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

