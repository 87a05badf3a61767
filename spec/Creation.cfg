SPECIFICATION Spec
CONSTANTS
  Paths = {"r", "x"}
  RootPath = "r"
INVARIANTS Honest LiedIsTrue Reason WholeIsWhole CanEnd
CHECK_DEADLOCK FALSE
