CONSTANTS Depth = 1 Wide = TRUE
INIT Init
NEXT Next
INVARIANTS ReadBack Needed Associative
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
