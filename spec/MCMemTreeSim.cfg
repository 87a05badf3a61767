SPECIFICATION GRandomSpec
CONSTANTS
  Paths <- MCPaths
  BadPaths <- MCBad
  Datas = {"d1", "d2"}
  DLen <- MCDLen
  FPerms = {"p1", "p2"}
  DPerms = {"q1", "q2"}
  Handles = {}
  ReadSizes = {}
  DirSizes = {}
  Ops = {"mkdir", "write", "stat", "readfile", "readdir", "sub"}
  MaxLen = 24
  EmitAll = FALSE
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTY FrameOK
CHECK_DEADLOCK FALSE
