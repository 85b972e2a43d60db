CONSTANTS MaxStr = 6 MaxToks = 4
INIT Init
NEXT Next
INVARIANTS RoundTrip Canonical Pointers Addresses
CHECK_DEADLOCK FALSE
