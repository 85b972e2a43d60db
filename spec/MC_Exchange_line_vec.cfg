CONSTANTS Focus = "line" MaxEntries = 1 Small = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Reflexive Exact Apart ExtraHeader ExtraParam Recased Fewer TopScore Resp
ACTION_CONSTRAINT Emit
