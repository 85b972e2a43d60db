INIT Init
NEXT NextC
CONSTANTS
  Texts = {1, 2, 3, 4, 5, 9, 11}
  Types = {1, 2, 3}
  Steps = 0
INVARIANTS Back Forms Commutes
CHECK_DEADLOCK FALSE
