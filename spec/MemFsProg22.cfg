SPECIFICATION Spec
CONSTANTS
  Threads = 2
  PerThread = 2
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
