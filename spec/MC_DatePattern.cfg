CONSTANTS MaxFields = 1
CONSTANTS MaxCount = 7
CONSTANTS Seps <- AllSeps
INIT Init
NEXT Next
INVARIANTS RoundTrip Readable
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
