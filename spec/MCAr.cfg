SPECIFICATION Spec
CONSTANTS
  NameToks = {"a", "b", ""}
  Sizes = {0, 1, 2}
  Blanks = {"none"}
  Styles = {"plain", "slash"}
  MaxMembers = 2
  MaxCut = 1000
ACTION_CONSTRAINT Emit
INVARIANTS LastWins Whole Sound Undamaged CutAtBoundary
PROPERTIES Ends Forward
CHECK_DEADLOCK FALSE
