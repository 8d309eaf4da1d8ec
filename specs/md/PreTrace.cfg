SPECIFICATION TSpec
CONSTANTS Codes = {1, 2, 3} Behs <- Many OpLists <- AllOps Cfgs <- AllCfgs MaxBlocks = 9 Printing = FALSE
INVARIANTS OwnResult Separate Complete RightOutcome At
CHECK_DEADLOCK FALSE
