CONSTANTS Depth = 2 Wide = FALSE
INIT Init
NEXT Next
INVARIANTS ReadBack Needed Associative
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
