SPECIFICATION Spec
CONSTANTS
  N = 7
  Dot = 1
  DotDot = 2
ACTION_CONSTRAINT Emit
INVARIANTS Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
