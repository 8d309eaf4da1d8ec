SPECIFICATION Spec
VIEW View
CONSTANT GoOn = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS PermissionsRight TypesRight AllLooked MovesRight LoansRight
