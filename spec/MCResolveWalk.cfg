SPECIFICATION WSpec
CONSTANTS
  Limit = 4
  Slots <- WSlots
  Targets <- Few
  Plain <- MCPlain
  Depth = 3
  Lens <- FewLens
  MaxNodes = 0
INVARIANTS Confined Agrees
PROPERTIES Ends Uses
CHECK_DEADLOCK FALSE
