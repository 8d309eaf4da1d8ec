SPECIFICATION Spec
CONSTANTS Codes = {1, 2} Behs <- Two OpLists <- TwoOps Cfgs <- OneCfg MaxBlocks = 3 Printing = FALSE
INVARIANTS OwnResult Separate Complete RightOutcome
CHECK_DEADLOCK FALSE
