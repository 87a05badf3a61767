SPECIFICATION Spec
CONSTANTS
  Formats = {"tar", "erofs"}
  MaxSteps = 1
  MaxNodes = 1
  MaxDepth = 1
  NameToks = {"a"}
  Kinds = {"file", "link", "dir"}
  Sizes = {"s1", "s4096"}
  Times = {"zero", "epoch", "sec", "frac", "half", "old", "oldfrac", "far", "huge"}
  Modes = {"m644", "suid", "sgid", "sticky", "all", "m0"}
  Owners = {"root", "small", "edge16", "over16", "edge17", "wide"}
  LinkTos = {"rel", "t4095", "t4096", "tnul", "t0"}
  SrcKinds = {"plain", "hdr", "stat", "disk"}
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Idempotent Stable
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
