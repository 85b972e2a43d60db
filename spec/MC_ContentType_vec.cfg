CONSTANTS MaxCt = 5 MaxText = 3
INIT Init
NEXT Next
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
