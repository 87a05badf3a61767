SPECIFICATION DSpec
CONSTANTS
  Paths <- MCPaths
  Absent <- MCAbsent
  MaxEntries = 2
  EmitAll = TRUE
ACTION_CONSTRAINT DEmit
INVARIANTS ParentsPresent NothingElse LastDecides DirKeepsItsOwn NothingInvented
CHECK_DEADLOCK FALSE
