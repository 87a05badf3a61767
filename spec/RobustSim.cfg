SPECIFICATION SimSpec
CONSTANTS
  Format = "tar"
  MaxMuts = 6
  Calls = {}
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
