INIT InitB
NEXT NextB
CONSTANTS
  Texts = {1}
  Types = {1}
  Steps = 3
INVARIANTS Kept Again
PROPERTY OneStep
CHECK_DEADLOCK FALSE
