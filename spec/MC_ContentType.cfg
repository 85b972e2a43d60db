CONSTANTS MaxCt = 5 MaxText = 3
INIT Init
NEXT Next
INVARIANTS Back Caseless Detects
CHECK_DEADLOCK FALSE
