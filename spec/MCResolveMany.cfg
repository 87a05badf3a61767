SPECIFICATION Spec
CONSTANTS
  Limit = 40
  Slots <- MCSlots
  Targets <- Many
  Plain <- MCPlain
  Depth = 4
  Lens <- FewLens
  MaxNodes = 0
ACTION_CONSTRAINT Emit
INVARIANTS Facts
CHECK_DEADLOCK FALSE
