SPECIFICATION Spec
CONSTANTS
  Format = "tar"
  MaxMuts = 1
  Calls = {"open"}
INVARIANT Ends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
