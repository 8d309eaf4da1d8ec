SPECIFICATION Spec
VIEW View
CONSTANT GoOn = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS LoansRight
