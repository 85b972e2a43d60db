CONSTANTS Depth = 1 MaxEntries = 1 Scalars = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Exact
ACTION_CONSTRAINT Emit
