SPECIFICATION GSpec
CONSTANTS
  Paths <- MCPaths
  BadPaths <- MCBad
  Datas = {"d1"}
  DLen <- MCDLen
  FPerms = {"p1"}
  DPerms = {"q1"}
  Handles = {"h1"}
  ReadSizes = {}
  DirSizes = {1, 2, 3, 99}
  Ops = {"mkdir", "write", "open", "dirread"}
  MaxLen = 100
  EmitAll = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
