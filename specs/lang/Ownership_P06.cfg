SPECIFICATION Spec
VIEW View
CONSTANT GoOn = FALSE
INVARIANTS OneResult CutOff OneBoundaryPerUse ActualRight
CHECK_DEADLOCK FALSE
