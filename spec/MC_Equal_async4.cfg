CONSTANTS Kind = "async4" Depth = 2 Walk = "sorted"
INIT Init
NEXT Next
INVARIANTS SameWhenEqual EqualHashTheSame DifferentWhenApart Consistent
CHECK_DEADLOCK FALSE
