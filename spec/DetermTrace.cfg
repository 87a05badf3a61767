SPECIFICATION TSpec
CONSTANTS
  Things = {}
  Asks = {}
  Answers = {}
  Leak = "none"
  Steps = 0
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
