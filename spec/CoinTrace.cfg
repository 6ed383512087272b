SPECIFICATION TSpec
CONSTANTS
 Maturity = 25
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
