SPECIFICATION Spec
CONSTANTS
 Honest = {1, 2}
 Silent = {3}
 Boasters = {4}
 Top = 3
 Batch = 2
 Window = 2
 Slack <- SmallSlack
 Deadline <- SmallDeadline
 Again <- SmallAgain
 FullBatch <- SmallBatch
INVARIANTS HonestKept Truth
CHECK_DEADLOCK FALSE
