SPECIFICATION SimSpec
CONSTANTS
  Formats = {"tar", "erofs"}
  MaxSteps = 3
  MaxNodes = 8
  MaxDepth = 5
  NameToks = {"a", "b", "c", "d", "e", "n100", "n255", ".x", "lsp", "tsp"}
  Kinds = {"file", "dir", "link"}
  Sizes = {"s0", "s1", "s511", "s512", "s513", "s1023", "s1024", "s1025", "s2048", "s4095", "s4096", "s4097", "s8191", "s8192", "s8193", "s70000", "s200000"}
  Times = {"zero", "epoch", "sec", "frac", "half", "old", "oldfrac", "far", "huge"}
  Modes = {"m0", "m644", "m755", "m777", "suid", "sgid", "sticky", "all"}
  Owners = {"root", "small", "edge16", "over16", "edge17", "wide"}
  LinkTos = {"rel", "abs", "up", "self", "dotty", "t99", "t100", "t255", "t1024", "t1025", "t4095"}
  SrcKinds = {"tar", "erofs"}
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Idempotent Stable
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
