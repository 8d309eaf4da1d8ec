SPECIFICATION Spec
CONSTANTS
  Items <- FewItems
  MinItems = 1
  MaxItems = 3
  Attribution = "owner"
  Printing = FALSE
INVARIANTS OnePerBody Faithful
CHECK_DEADLOCK FALSE
