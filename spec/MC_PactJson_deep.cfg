INIT Init
NEXT Next
CONSTANTS
  Texts = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
  Types = {1, 2, 3, 4, 5, 6}
INVARIANTS Survives Exact
CHECK_DEADLOCK FALSE
