SPECIFICATION Spec
VIEW View
CONSTANT GoOn = TRUE
INVARIANTS Closed InOrder LoansTold MovesTold LoansRight MovesRight Blame
CHECK_DEADLOCK FALSE
