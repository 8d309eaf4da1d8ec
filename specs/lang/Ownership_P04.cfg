SPECIFICATION Spec
VIEW View
CONSTANT GoOn = FALSE
INVARIANTS OneBoundaryPerUse NothingElse
CHECK_DEADLOCK FALSE
