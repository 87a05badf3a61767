SPECIFICATION OddSim
CONSTANTS
  Paths <- MCPathsBig
  Absent <- MCAbsent
  MaxEntries = 7
  EmitAll = FALSE
ACTION_CONSTRAINT OddEmit
INVARIANTS ParentsPresent NothingElse
CHECK_DEADLOCK FALSE
