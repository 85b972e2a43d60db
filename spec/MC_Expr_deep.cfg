CONSTANTS MaxStr = 8
INIT Init
NEXT Next
INVARIANTS Kept Local Unclosed
CHECK_DEADLOCK FALSE
