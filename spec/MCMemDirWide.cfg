SPECIFICATION GRandomSpec
CONSTANTS
  Paths <- MCPathsWide
  BadPaths <- MCBad
  Datas = {"d1"}
  DLen <- MCDLen
  FPerms = {"p1"}
  DPerms = {"q1"}
  Handles = {"h1", "h2", "h3"}
  ReadSizes = {}
  DirSizes = {1, 3, 7, 16, 99}
  Ops = {"mkdir", "write", "readdir", "open", "dirread"}
  MaxLen = 70
  EmitAll = FALSE
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
