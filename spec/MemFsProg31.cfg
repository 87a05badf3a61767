SPECIFICATION Spec
CONSTANTS
  Threads = 3
  PerThread = 1
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
