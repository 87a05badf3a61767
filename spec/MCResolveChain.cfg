SPECIFICATION ChainSpec
CONSTANTS
  Limit = 40
  Slots <- ChainSlots
  Targets <- Few
  Plain <- ChainPlain
  Depth = 2
  Lens <- FewLens
  MaxNodes = 0
ACTION_CONSTRAINT Emit
INVARIANTS Facts
CHECK_DEADLOCK FALSE
