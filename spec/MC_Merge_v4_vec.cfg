CONSTANTS Model = "v4" Depth = 2
INIT Init
NEXT Next
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
