SPECIFICATION GSpec
CONSTANTS
  Paths <- MCPaths
  BadPaths <- MCBad
  Datas = {"d0", "d1", "d3"}
  DLen <- MCDLen
  FPerms = {"p1"}
  DPerms = {}
  Handles = {"h1", "h2"}
  ReadSizes = {0, 1, 2, 4}
  DirSizes = {}
  Ops = {"write", "open", "read", "fstat", "close"}
  MaxLen = 100
  EmitAll = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK SnapshotInv
CHECK_DEADLOCK FALSE
