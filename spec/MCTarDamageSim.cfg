SPECIFICATION DSimSpec
CONSTANTS
  Paths <- MCPathsBig
  Absent <- MCAbsent
  MaxEntries = 6
  EmitAll = TRUE
ACTION_CONSTRAINT DEmit
INVARIANTS ParentsPresent NothingElse LastDecides DirKeepsItsOwn NothingInvented
CHECK_DEADLOCK FALSE
