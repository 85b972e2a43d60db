INIT Init
NEXT NextC
CONSTANTS
  Texts = {1,2,3,4,5,6,7,8,9,10,11,12,13}
  Types = {1,2,3,4,5,6}
  Steps = 0
INVARIANTS Back Forms Commutes
CHECK_DEADLOCK FALSE
