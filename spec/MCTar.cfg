SPECIFICATION GSpec
CONSTANTS
  Paths <- MCPaths
  Absent <- MCAbsent
  MaxEntries = 3
  EmitAll = TRUE
ACTION_CONSTRAINT Emit
INVARIANTS Incremental ParentsPresent NothingElse LastDecides DirKeepsItsOwn
CHECK_DEADLOCK FALSE
