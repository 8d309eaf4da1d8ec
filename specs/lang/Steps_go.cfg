SPECIFICATION Spec
CONSTANTS GoOn = TRUE
  About = {"let", "set", "op", "ex", "ret", "loop", "brk", "cont", "if", "while", "else", "end"}
INVARIANTS RowsRight RowsComplete OneRow Entry
VIEW View
CHECK_DEADLOCK FALSE
