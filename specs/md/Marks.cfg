SPECIFICATION Spec
CONSTANTS Tokens <- Short MaxToks = 3 Printing = TRUE
INVARIANTS NothingLost SameLines InOrder MarksInsideLines Emit
CHECK_DEADLOCK FALSE
