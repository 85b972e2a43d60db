CONSTANTS MaxStr = 5 MaxToks = 3
INIT Init
NEXT Next
INVARIANTS RoundTrip Canonical Pointers Addresses
CHECK_DEADLOCK FALSE
