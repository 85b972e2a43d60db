CONSTANTS
  Kind = "time"
  MaxWords = 6
  MaxDead = 3
INIT Init
NEXT Next
INVARIANTS Agree Meaning
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
