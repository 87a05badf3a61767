SPECIFICATION Spec
CONSTANTS
  Formats = {"tar", "erofs", "ar"}
  MaxSteps = 1
  MaxNodes = 1
  MaxDepth = 3
  NameToks = {"a"}
  Kinds = {"many"}
  Sizes = {"s70000"}
  Times = {"zero", "frac"}
  Modes = {"m644"}
  Owners = {"small"}
  LinkTos = {"rel"}
  SrcKinds = {"plain", "mem"}
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Idempotent Stable
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
