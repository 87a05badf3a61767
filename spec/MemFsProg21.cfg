SPECIFICATION Spec
CONSTANTS
  Threads = 2
  PerThread = 1
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
