SPECIFICATION Spec
CONSTANTS Programs = {1, 2} Behs <- Few Kinds <- FewKinds Odds <- FewOdds MaxReqs = 2 Printing = FALSE
INVARIANTS OwnAnswer Success Separate NothingLeft
PROPERTY Answered
CHECK_DEADLOCK FALSE
