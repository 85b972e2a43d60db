CONSTANTS Depth = 3
CONSTANTS Menu <- Few
CONSTANTS SmallMenu <- Few
INIT Init
NEXT Next
INVARIANTS AllRulesSurvive V3Survives V2Survives
CHECK_DEADLOCK FALSE
