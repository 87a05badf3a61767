SPECIFICATION Spec
CONSTANTS
  Counts = {0, 1, 2, 30, 169, 170, 340, 341, 900, 5000}
  Lens = {"short", "mixed", "max", "prefix"}
  Bits = {9, 10, 11, 12, 13, 16}
  Fills = {"natural", "split", "exact"}
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
