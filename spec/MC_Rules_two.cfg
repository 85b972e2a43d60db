CONSTANTS Depth = 2
CONSTANTS Menu <- Few
CONSTANTS SmallMenu <- Pair
INIT Init
NEXT Next
INVARIANTS AllRulesSurvive V3Survives V2Survives
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
