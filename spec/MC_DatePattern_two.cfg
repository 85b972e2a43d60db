CONSTANTS MaxFields = 2
CONSTANTS MaxCount = 4
CONSTANTS Seps <- FewSeps
INIT Init
NEXT Next
INVARIANTS RoundTrip Readable
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
