CONSTANTS Writers = {1, 2, 3} Readers = {4} Protocol = "locked" MaxTries = 2 Crashes = TRUE
SPECIFICATION Spec
INVARIANTS Exclusive Atomic NoLostUpdate ReadersSeeWhole
PROPERTY Terminates
CHECK_DEADLOCK FALSE
