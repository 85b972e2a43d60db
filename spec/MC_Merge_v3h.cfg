CONSTANTS Model = "v3h" Depth = 3
INIT Init
NEXT Next
INVARIANTS NoDuplicates Idempotent NothingLost
PROPERTY RelHolds
CHECK_DEADLOCK FALSE
