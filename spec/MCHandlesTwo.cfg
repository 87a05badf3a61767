SPECIFICATION Spec
CONSTANTS
  Files = {"f", "g"}
  Lens = {1, 2}
  Handles = {"h1", "h2"}
  Systems = {"s1"}
  Sizes = {1, 3}
  Faults = FALSE
  MaxLen = 100
  EmitAll = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Consecutive EndOnly
CHECK_DEADLOCK FALSE
