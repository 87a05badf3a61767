SPECIFICATION Spec
CONSTANTS
  N = 7
  Dot = 2
  DotDot = 3
ACTION_CONSTRAINT Emit
INVARIANTS Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
