SPECIFICATION Spec
CONSTANTS
  Counts = {0, 1, 2, 30, 340, 900}
  Lens = {"short", "mixed", "max", "prefix"}
  Bits = {9, 10, 12}
  Fills = {"natural", "split", "exact"}
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
