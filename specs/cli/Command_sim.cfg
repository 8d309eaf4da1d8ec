SPECIFICATION Spec
CONSTANTS
  Items <- AllItems
  MinItems = 4
  MaxItems = 6
  Attribution = "owner"
  Printing = TRUE
INVARIANTS OnePerBody Faithful Emit
CHECK_DEADLOCK FALSE
