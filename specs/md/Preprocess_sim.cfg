SPECIFICATION Spec
CONSTANTS Codes = {1, 2, 3} Behs <- Many OpLists <- AllOps Cfgs <- AllCfgs MaxBlocks = 5 Printing = TRUE
INVARIANTS OwnResult Separate Complete RightOutcome Emit
CHECK_DEADLOCK FALSE
