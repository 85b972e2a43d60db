CONSTANTS Depth = 1
CONSTANTS Menu <- Sample
CONSTANTS SmallMenu <- Few
INIT Init
NEXT Next
INVARIANTS AllRulesSurvive V3Survives V2Survives
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
