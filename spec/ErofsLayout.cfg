SPECIFICATION Spec
ACTION_CONSTRAINT Emit
INVARIANTS Intervals
CHECK_DEADLOCK FALSE
