SPECIFICATION HSpec
CONSTANTS
  Paths = {}
  BadPaths = {}
  Datas = {}
  DLen = 0
  FPerms = {}
  DPerms = {}
  Handles = {}
  ReadSizes = {}
  DirSizes = {}
  Ops = {}
ACTION_CONSTRAINT EmitOk
CHECK_DEADLOCK FALSE
