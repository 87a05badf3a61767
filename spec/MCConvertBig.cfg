SPECIFICATION Spec
CONSTANTS
  Formats = {"tar", "erofs", "ar"}
  MaxSteps = 1
  MaxNodes = 1
  MaxDepth = 1
  NameToks = {"a"}
  Kinds = {"file"}
  Sizes = {"s32767", "s65535", "s65536", "s65537", "s131072", "s1048575", "s1048576", "s1048577", "s5000001"}
  Times = {"sec"}
  Modes = {"m644"}
  Owners = {"small"}
  LinkTos = {"rel"}
  SrcKinds = {"plain", "hdr", "mem", "disk"}
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Idempotent Stable
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
