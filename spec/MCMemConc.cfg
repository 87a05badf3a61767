SPECIFICATION CSpec
CONSTANTS
  Paths = {}
  BadPaths = {}
  Datas = {}
  DLen = 0
  FPerms = {}
  DPerms = {}
  Handles = {}
  ReadSizes = {}
  DirSizes = {}
  Ops = {}
  Threads <- MCThreads
  Programs <- MCPrograms
INVARIANTS Same Linearizable OneLock HeldInside TypeOK
PROPERTY Terminates
