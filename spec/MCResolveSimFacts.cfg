SPECIFICATION SimSpec
CONSTANTS
  Limit = 40
  Slots <- MCSlots
  Targets <- Many
  Plain <- MCRoot
  Depth = 4
  Lens <- FewLens
  MaxNodes = 14
ACTION_CONSTRAINT Emit
INVARIANTS Facts
CHECK_DEADLOCK FALSE
