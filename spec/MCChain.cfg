CONSTANTS
  Reward = 1
  Maturity = 1
  MaxWeight = 10
  Version = 1
  N = 3
  MaxWork = 2
SPECIFICATION MCSpec
INVARIANTS ConfirmedValid HeadersValid CandidateHeaviest CandidateStored ConfirmedHeaviest Final NoneStuck
PROPERTIES Monotone CandMonotone
CHECK_DEADLOCK FALSE
