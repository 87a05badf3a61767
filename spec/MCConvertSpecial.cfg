SPECIFICATION Spec
CONSTANTS
  Formats = {"tar", "erofs", "ar"}
  MaxSteps = 1
  MaxNodes = 2
  MaxDepth = 2
  NameToks = {"a", "b"}
  Kinds = {"file", "link", "dir", "chr", "blk", "fifo", "sock", "irr"}
  Sizes = {"s1"}
  Times = {"sec"}
  Modes = {"m644"}
  Owners = {"small"}
  LinkTos = {"rel"}
  SrcKinds = {"plain", "hdr", "stat", "blind"}
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Idempotent Stable
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
