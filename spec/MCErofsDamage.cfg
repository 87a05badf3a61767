SPECIFICATION DSpec
CONSTANTS
  Names = {"a", "b", "c", "d", "e", "f", "n100", "n255", ".x", "lsp", "tsp"}
  Kinds = {"file", "dir", "link", "chr", "blk", "fifo", "sock"}
  Sizes = {"s0", "s1", "s31", "s447", "s448", "s480", "s481", "s511", "s512", "s513", "s1023", "s1024", "s1025", "s4032", "s4064", "s4095", "s4096", "s4097", "s8192", "s8200", "s70000"}
  Times = {"epoch", "sec", "frac", "half", "old", "oldfrac", "far", "huge", "build"}
  Modes = {"m0", "m644", "m755", "m777", "suid", "sgid", "sticky", "all"}
  Owners = {"root", "small", "edge16", "over16", "edge17", "wide"}
  LinkTos = {"rel", "abs", "up", "self", "dotty", "t1", "t60", "t470", "t1500", "t4095"}
  MaxNodes = 8
  MaxDepth = 5
ACTION_CONSTRAINT DEmit
INVARIANTS TreeShaped DirsHaveOneName Reached Noticed Local
CHECK_DEADLOCK FALSE
