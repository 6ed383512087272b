SPECIFICATION Spec
CONSTANTS
 MaxMsgs = 4
INVARIANTS Out Few Clean Honest Gossip Unheard Twice LocatorOk
PROPERTY Grows
CHECK_DEADLOCK FALSE
