SPECIFICATION SimSpec
CONSTANTS
  Paths <- MCPathsBig
  Absent <- MCAbsent
  MaxEntries = 9
  EmitAll = FALSE
ACTION_CONSTRAINT Emit
INVARIANTS ParentsPresent NothingElse LastDecides DirKeepsItsOwn
CHECK_DEADLOCK FALSE
