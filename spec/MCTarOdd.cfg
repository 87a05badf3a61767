SPECIFICATION OddSpec
CONSTANTS
  Paths <- MCPaths
  Absent <- MCAbsent
  MaxEntries = 3
  EmitAll = TRUE
ACTION_CONSTRAINT OddEmit
INVARIANTS Incremental ParentsPresent NothingElse
CHECK_DEADLOCK FALSE
