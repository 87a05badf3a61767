SPECIFICATION Spec
CONSTANTS
  Files = {"f", "g"}
  Lens = {0, 1, 3, 6}
  Handles = {"h1", "h2", "h3"}
  Systems = {"s1"}
  Sizes = {0, 1, 2, 4}
  Faults = FALSE
  MaxLen = 16
  EmitAll = FALSE

ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Consecutive EndOnly
CHECK_DEADLOCK FALSE
