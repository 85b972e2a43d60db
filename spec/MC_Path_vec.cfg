CONSTANTS MaxStr = 4 MaxToks = 2
INIT Init
NEXT Next
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
