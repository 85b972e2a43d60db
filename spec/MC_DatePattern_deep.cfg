CONSTANTS MaxFields = 2
CONSTANTS MaxCount = 7
CONSTANTS Seps <- AllSeps
INIT Init
NEXT Next
INVARIANTS RoundTrip Readable
CHECK_DEADLOCK FALSE
