SPECIFICATION TSpec
CONSTANTS Programs = {1, 2, 3} Behs <- Many Kinds <- AllKinds Odds <- AllOdds MaxReqs = 9 Printing = FALSE
INVARIANTS OwnAnswer Success Separate NothingLeftT At
CHECK_DEADLOCK FALSE
