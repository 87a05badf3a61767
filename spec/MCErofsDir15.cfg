SPECIFICATION Spec
CONSTANTS
  N = 7
  Dot = 1
  DotDot = 5
ACTION_CONSTRAINT Emit
INVARIANTS Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
