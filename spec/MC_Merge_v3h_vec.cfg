CONSTANTS Model = "v3h" Depth = 2
INIT Init
NEXT Next
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
