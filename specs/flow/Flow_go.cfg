SPECIFICATION Spec
CONSTANT GoOn = TRUE
INVARIANTS NothingMissing NothingElse Quiet CompilerAgrees
CHECK_DEADLOCK FALSE
