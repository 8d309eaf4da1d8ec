SPECIFICATION Spec
VIEW View
CONSTANT GoOn = FALSE
INVARIANTS ActualRight AcceptedComplete RejectedMissing
CHECK_DEADLOCK FALSE
