CONSTANT MaxEntries = 2
INIT Init
NEXT Next
INVARIANTS ExactWins MoreExact Sound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
