SPECIFICATION Spec
CONSTANTS Plans = {0, 1, 2, 3} Blocks = {"a", "aMarked", "bad", "flaky"} MaxBuilds = 2 MaxPages = 1 MaxOnPage = 2 Printing = FALSE
INVARIANTS SameAnswer OnlyGood Reused
CHECK_DEADLOCK FALSE
