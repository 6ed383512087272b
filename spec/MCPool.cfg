CONSTANTS
  PMaturity = 1
  Embargo = 1
  Slack = 1
  MaxNow = 3
  MaxSubmit = 3
SPECIFICATION MCSpec
INVARIANTS PoolValid PoolSound StemPrivate StemSound
PROPERTIES Leaves Settled
CHECK_DEADLOCK FALSE
