SPECIFICATION Spec
CONSTANTS
  Formats = {"tar", "erofs", "ar"}
  MaxSteps = 1
  MaxNodes = 2
  MaxDepth = 2
  NameToks = {"a", "b"}
  Kinds = {"file", "dir"}
  Sizes = {"s0", "s1", "s100", "s1023", "s1024", "s1025", "s4095", "s4096", "s4097", "s8192", "s9000"}
  Times = {"sec"}
  Modes = {"m644"}
  Owners = {"small"}
  LinkTos = {"rel"}
  SrcKinds = {"plain"}
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Idempotent Stable
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
