CONSTANTS Model = "v3m" Depth = 3
INIT Init
NEXT Next
INVARIANTS NoDuplicates Idempotent NothingLost
PROPERTY RelHolds
CHECK_DEADLOCK FALSE
