CONSTANT Strict = TRUE
INIT Init
NEXT Next
INVARIANTS InOrder Raised Accepted Loads Rejected
CHECK_DEADLOCK FALSE
