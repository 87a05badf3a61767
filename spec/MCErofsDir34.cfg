SPECIFICATION Spec
CONSTANTS
  N = 7
  Dot = 3
  DotDot = 4
ACTION_CONSTRAINT Emit
INVARIANTS Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
