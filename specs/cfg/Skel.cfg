SPECIFICATION Spec
CONSTANTS
  Max = 3
  MaxDepth = 3
  Printing = TRUE
INVARIANTS Balanced Emit
CHECK_DEADLOCK FALSE
