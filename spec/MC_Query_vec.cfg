CONSTANTS MaxStr = 4 MaxVals = 2
INIT Init
NEXT Next
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
