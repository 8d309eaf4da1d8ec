SPECIFICATION Spec
CONSTANTS Plans = {0, 1, 2, 3, 4, 5} Blocks = {"a", "aMarked", "aHidden", "aFail", "aPerm", "aBoth", "aFlows", "aOpt1", "aOpt2", "aOpSetting", "b", "bad", "flaky", "big"}
  MaxBuilds = 6 MaxPages = 2 MaxOnPage = 3 Printing = TRUE
INVARIANTS SameAnswer OnlyGood Reused Emit
CHECK_DEADLOCK FALSE
