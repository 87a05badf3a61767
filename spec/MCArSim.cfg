SPECIFICATION SimSpec
CONSTANTS
  NameToks = {"a", "b", "c", "d", "e", "f", "g", "h", "n16", ""}
  Sizes = {0, 1, 2, 3, 59, 60, 61, 100, 1001, 4096, 70001}
  Blanks = {"none", "time", "uid", "gid", "owner", "size", "all"}
  Styles = {"plain", "slash"}
  MaxMembers = 9
  MaxCut = 4000
ACTION_CONSTRAINT Emit
INVARIANTS LastWins Whole Sound Undamaged CutAtBoundary
CHECK_DEADLOCK FALSE
