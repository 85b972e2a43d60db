CONSTANT MaxEntries = 3
INIT Init
NEXT Next
INVARIANTS ExactWins MoreExact Sound
CHECK_DEADLOCK FALSE
