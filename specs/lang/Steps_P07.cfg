SPECIFICATION Spec
CONSTANTS GoOn = FALSE
  About = {"let", "set", "op", "ex", "ret", "loop", "brk", "cont"}
INVARIANTS RowsRight RowsComplete OneRow Entry
VIEW View
CHECK_DEADLOCK FALSE
