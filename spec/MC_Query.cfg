CONSTANTS MaxStr = 5 MaxVals = 3
INIT Init
NEXT Next
INVARIANTS RoundTrip Normal DecodeEncode
CHECK_DEADLOCK FALSE
