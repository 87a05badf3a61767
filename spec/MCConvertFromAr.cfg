SPECIFICATION SimSpec
CONSTANTS
  Formats = {"tar", "erofs", "ar"}
  MaxSteps = 3
  MaxNodes = 4
  MaxDepth = 1
  NameToks = {"a", "b", "c", "d", "e", ".x", "lsp", "tsp"}
  Kinds = {"file"}
  Sizes = {"s0", "s1", "s511", "s512", "s513", "s1023", "s1024", "s1025", "s2048", "s4095", "s4096", "s4097", "s8191", "s8192", "s8193", "s70000", "s200000"}
  Times = {"zero", "epoch", "sec", "frac", "half", "old", "oldfrac", "far"}
  Modes = {"m0", "m644", "m755", "m777", "suid", "sgid", "sticky", "all"}
  Owners = {"root", "small", "edge16", "over16", "edge17"}
  LinkTos = {"rel"}
  SrcKinds = {"ar", "ar", "tar", "erofs"}
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Idempotent Stable
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
