SPECIFICATION TSpec
CONSTANTS
  Paths = {}
  RootPath = "."
ACTION_CONSTRAINT Emit
INVARIANTS Honest LiedIsTrue Reason WholeIsWhole
CHECK_DEADLOCK FALSE
