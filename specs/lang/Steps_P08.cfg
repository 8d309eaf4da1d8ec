SPECIFICATION Spec
CONSTANTS GoOn = FALSE
  About = {"if", "while", "else", "end"}
INVARIANTS RowsRight RowsComplete OneRow Entry
VIEW View
CHECK_DEADLOCK FALSE
