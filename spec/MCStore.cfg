SPECIFICATION Spec
CONSTANTS
  Data = {1, 2}
  MaxLen = 4
INVARIANTS Works
PROPERTIES Refines
CHECK_DEADLOCK FALSE
