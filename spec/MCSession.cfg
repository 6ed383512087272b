SPECIFICATION Spec
CONSTANTS
 Ns = {1, 2}
 Pws = {1, 2}
 MaxSess = 4
 MaxSeeds = 2
INVARIANT Inv
PROPERTY Stays
CHECK_DEADLOCK FALSE
