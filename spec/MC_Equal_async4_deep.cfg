CONSTANTS Kind = "async4" Depth = 3 Walk = "sorted"
INIT Init
NEXT Next
INVARIANTS SameWhenEqual EqualHashTheSame DifferentWhenApart Consistent
CHECK_DEADLOCK FALSE
