SPECIFICATION TSpec
CONSTANTS
  Items <- AllItems
  MinItems = 1
  MaxItems = 6
  Attribution = "owner"
  Printing = FALSE
INVARIANTS OneArray OneEach NoMore Same OptionsOnly
CHECK_DEADLOCK FALSE
