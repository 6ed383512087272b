SPECIFICATION TSpec
CONSTANTS
  PMaturity = 25
  Embargo = 180
  Slack = 30
  MODE = "C06"
INVARIANTS Valid Private
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
