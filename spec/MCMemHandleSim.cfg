SPECIFICATION GRandomSpec
CONSTANTS
  Paths <- MCPaths
  BadPaths <- MCBad
  Datas = {"d0", "d1", "d3"}
  DLen <- MCDLen
  FPerms = {"p1", "p2"}
  DPerms = {}
  Handles = {"h1", "h2"}
  ReadSizes = {0, 1, 2, 4}
  DirSizes = {}
  Ops = {"write", "open", "read", "fstat", "close"}
  MaxLen = 20
  EmitAll = FALSE
ACTION_CONSTRAINT Emit
INVARIANT TypeOK SnapshotInv
CHECK_DEADLOCK FALSE
