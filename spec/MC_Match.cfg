CONSTANTS Depth = 1 MaxEntries = 1 Scalars = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Exact Open Equal TypeShape Narrower Placed Idle Kinds

