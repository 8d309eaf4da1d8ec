SPECIFICATION Spec
CONSTANT GoOn = FALSE
INVARIANTS NothingMissing NothingElse Quiet CompilerAgrees
CHECK_DEADLOCK FALSE
