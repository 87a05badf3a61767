SPECIFICATION Spec
CONSTANTS
  Files = {"f", "g", "k"}
  Lens = {0, 1, 2, 5}
  Handles = {"h1", "h2", "h3"}
  Systems = {"s1", "s2"}
  Sizes = {0, 1, 2, 3, 7}
  Faults = TRUE
  MaxLen = 24
  EmitAll = FALSE

ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Consecutive EndOnly
CHECK_DEADLOCK FALSE
