SPECIFICATION Spec
VIEW View
CONSTANT GoOn = FALSE
INVARIANTS Closed InOrder LoansTold MovesTold LoansRight MovesRight Blame
CHECK_DEADLOCK FALSE
