CONSTANTS Focus = "body" MaxEntries = 1 Small = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Reflexive Exact Apart ExtraHeader ExtraParam Recased Fewer TopScore Resp
