SPECIFICATION Spec
CONSTANTS
  Formats = {"tar", "erofs", "ar"}
  MaxSteps = 1
  MaxNodes = 2
  MaxDepth = 2
  NameToks = {"a", "b", "c", "d", "e", ".x", "n16", "n17", "n100", "n255", "n256", "tsp", "lsp", "nul"}
  Kinds = {"file", "dir", "link"}
  Sizes = {"s1"}
  Times = {"sec"}
  Modes = {"m644"}
  Owners = {"small"}
  LinkTos = {"rel"}
  SrcKinds = {"hdr"}
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Idempotent Stable
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
