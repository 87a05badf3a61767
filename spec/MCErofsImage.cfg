SPECIFICATION Spec
CONSTANTS
  BitsSet = {9, 12}
  Metas = {0, 1, 3}
  RootSlots = {40}
  Kinds = {"file", "link"}
  NidBlocks = {1, 2}
  Quots = {0, 1, 2}
  RawBlocks = {4, 9}
  Highs = {0}
ACTION_CONSTRAINT Emit
INVARIANTS SizeRight TailInBlock Aligned
CHECK_DEADLOCK FALSE
