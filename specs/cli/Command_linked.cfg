SPECIFICATION Spec
CONSTANTS
  Items <- LinkedItems
  MinItems = 3
  MaxItems = 6
  Attribution = "owner"
  Printing = TRUE
INVARIANTS OnePerBody Faithful Emit
CHECK_DEADLOCK FALSE
