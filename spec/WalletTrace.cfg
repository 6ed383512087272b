SPECIFICATION TSpec
CONSTANTS
 MODE = "all"
  Maturity = 25
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
