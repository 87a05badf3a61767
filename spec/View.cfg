SPECIFICATION Spec
CONSTANT Limit = 40
ACTION_CONSTRAINT Emit
INVARIANT TreeShaped
CHECK_DEADLOCK FALSE
