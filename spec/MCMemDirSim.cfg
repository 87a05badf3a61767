SPECIFICATION GRandomSpec
CONSTANTS
  Paths <- MCPathsSim
  BadPaths <- MCBad
  Datas = {"d1"}
  DLen <- MCDLen
  FPerms = {"p1", "p2"}
  DPerms = {"q1"}
  Handles = {"h1", "h2", "h3"}
  ReadSizes = {}
  DirSizes = {1, 2, 3, 99}
  Ops = {"mkdir", "write", "readdir", "open", "dirread"}
  MaxLen = 20
  EmitAll = FALSE
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
