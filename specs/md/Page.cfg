SPECIFICATION Spec
CONSTANTS MaxToks = 3 Printing = TRUE
CONSTANT Tokens <- Short
INVARIANTS Disjoint NoneMissed MarksOutside Emit
CHECK_DEADLOCK FALSE
