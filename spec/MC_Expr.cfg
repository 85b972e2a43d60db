CONSTANTS MaxStr = 6
INIT Init
NEXT Next
INVARIANTS Kept Local Unclosed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
