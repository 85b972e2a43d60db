CONSTANTS MaxCt = 6 MaxText = 4
INIT Init
NEXT Next
INVARIANTS Back Caseless Detects
CHECK_DEADLOCK FALSE
