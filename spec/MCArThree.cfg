SPECIFICATION Spec
CONSTANTS
  NameToks = {"a", "b"}
  Sizes = {0, 3}
  Blanks = {"none", "all"}
  Styles = {"plain"}
  MaxMembers = 3
  MaxCut = 0
ACTION_CONSTRAINT Emit
INVARIANTS LastWins Whole Sound Undamaged CutAtBoundary
PROPERTIES Forward
CHECK_DEADLOCK FALSE
