SPECIFICATION Spec
CONSTANTS GoOn = TRUE
  Pretended = TRUE
INVARIANTS PointsRight BlocksRight EdgesRight NoneRight SetsRight EntryDominates
CHECK_DEADLOCK FALSE
