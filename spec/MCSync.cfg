SPECIFICATION Spec
CONSTANTS
 Honest = {1, 2}
 Silent = {3}
 Boasters = {}
 Top = 4
 Batch = 2
 Window = 3
 Slack <- SmallSlack
 Deadline <- SmallDeadline
 Again <- SmallAgain
 FullBatch <- SmallBatch
INVARIANTS HonestKept Truth
PROPERTY CatchesUp
CHECK_DEADLOCK FALSE
