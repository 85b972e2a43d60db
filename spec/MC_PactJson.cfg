INIT Init
NEXT Next
CONSTANTS
  Texts = {1, 2, 3, 4, 5, 9, 11}
  Types = {1, 2, 3}
INVARIANTS Survives Exact
CHECK_DEADLOCK FALSE
