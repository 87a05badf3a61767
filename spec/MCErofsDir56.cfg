SPECIFICATION Spec
CONSTANTS
  N = 7
  Dot = 5
  DotDot = 6
ACTION_CONSTRAINT Emit
INVARIANTS Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
