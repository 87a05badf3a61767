SPECIFICATION Spec
CONSTANTS
  Things = {"a", "b"}
  Asks = {1, 2}
  Answers = {0, 1}
  Leak = "none"
  Steps = 6
INVARIANTS Accepted NeverRefused
CHECK_DEADLOCK FALSE
