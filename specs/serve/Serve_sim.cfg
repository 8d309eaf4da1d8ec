SPECIFICATION Spec
CONSTANTS Programs = {1, 2, 3} Behs <- Many Kinds <- AllKinds Odds <- AllOdds MaxReqs = 9 Printing = TRUE
INVARIANTS OwnAnswer Success Separate NothingLeft Emit
CHECK_DEADLOCK FALSE
