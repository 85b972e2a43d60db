CONSTANTS
  Kind = "date"
  MaxWords = 8
  MaxDead = 5
INIT Init
NEXT Next
INVARIANTS Agree Meaning
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
