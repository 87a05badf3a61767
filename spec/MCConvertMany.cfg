SPECIFICATION SimSpec
CONSTANTS
  Formats = {"tar", "erofs", "ar"}
  MaxSteps = 1
  MaxNodes = 3
  MaxDepth = 3
  NameToks = {"a", "b", "c"}
  Kinds = {"dir", "many", "many"}
  Sizes = {"s20", "s130", "s300", "s1000", "s3000"}
  Times = {"zero", "sec", "frac"}
  Modes = {"m644", "m755"}
  Owners = {"root", "small", "over16"}
  LinkTos = {"rel"}
  SrcKinds = {"plain", "hdr", "stat", "mem", "disk"}
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Idempotent Stable
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
