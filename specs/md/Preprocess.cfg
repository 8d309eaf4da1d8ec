SPECIFICATION Spec
CONSTANTS Codes = {1, 2} Behs <- Two OpLists <- AllOps Cfgs <- OneCfg MaxBlocks = 2 Printing = FALSE
INVARIANTS OwnResult Separate Complete RightOutcome
PROPERTY Ends
CHECK_DEADLOCK FALSE
