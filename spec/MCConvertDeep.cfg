SPECIFICATION SimSpec
CONSTANTS
  Formats = {"tar", "erofs", "ar"}
  MaxSteps = 1
  MaxNodes = 3
  MaxDepth = 3
  NameToks = {"a", "b", "c"}
  Kinds = {"dir", "deep", "deep", "file", "link"}
  Sizes = {"s5", "s21", "s41", "s120"}
  Times = {"zero", "sec", "frac"}
  Modes = {"m644", "m755"}
  Owners = {"root", "small", "over16"}
  LinkTos = {"rel", "up", "abs"}
  SrcKinds = {"plain", "hdr", "stat", "mem", "disk"}
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Idempotent Stable
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
