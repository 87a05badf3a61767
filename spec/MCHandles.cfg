SPECIFICATION Spec
CONSTANTS
  Files = {"f"}
  Lens = {0, 1, 3}
  Handles = {"h1", "h2"}
  Systems = {"s1", "s2"}
  Sizes = {0, 1, 2, 4}
  Faults = TRUE
  MaxLen = 100
  EmitAll = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Consecutive EndOnly
CHECK_DEADLOCK FALSE
