SPECIFICATION CSpec
CONSTANTS
  Paths = {}
  BadPaths = {}
  Datas = {}
  DLen = 0
  FPerms = {}
  DPerms = {}
  Handles = {}
  ReadSizes = {}
  DirSizes = {}
  Ops = {}
  Threads <- Two
  Programs <- MCProgramsLong
INVARIANTS Same Linearizable OneLock HeldInside TypeOK
PROPERTY Terminates
