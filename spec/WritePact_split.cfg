CONSTANTS Writers = {1, 2, 3} Readers = {4} Protocol = "split" MaxTries = 2 Crashes = TRUE
SPECIFICATION Spec
INVARIANTS Exclusive Atomic NoLostUpdate ReadersSeeWhole
CHECK_DEADLOCK FALSE
