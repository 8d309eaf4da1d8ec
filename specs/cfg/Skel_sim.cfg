SPECIFICATION Spec
CONSTANTS
  Max = 14
  MaxDepth = 4
  Printing = TRUE
INVARIANTS Balanced Emit
CHECK_DEADLOCK FALSE
