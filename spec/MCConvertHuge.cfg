SPECIFICATION Spec
CONSTANTS
  Formats = {"tar", "erofs", "ar"}
  MaxSteps = 1
  MaxNodes = 1
  MaxDepth = 1
  NameToks = {"a"}
  Kinds = {"file"}
  Sizes = {"s4294967296"}
  Times = {"zero", "sec"}
  Modes = {"m644"}
  Owners = {"small"}
  LinkTos = {"rel"}
  SrcKinds = {"stat"}
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Idempotent Stable
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
