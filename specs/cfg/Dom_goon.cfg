SPECIFICATION Spec
CONSTANTS GoOn = TRUE
  Pretended = FALSE
INVARIANTS PointsRight BlocksRight EdgesRight NoneRight SetsRight EntryDominates
CHECK_DEADLOCK FALSE
