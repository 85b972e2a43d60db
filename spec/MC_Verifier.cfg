CONSTANTS MaxInteractions = 1
  MaxStates = 2
  Kinds = {"http4", "async4", "sync4"}
  Modes = {"call", "nourl", "once", "twice"}
  Cut = TRUE
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Emitting InOrder OneResult RequestOnce AllSetUp AllTornDown Tries AgainOnly Truth Verdicts Listed Injected Deterministic
PROPERTY Terminates
CHECK_DEADLOCK FALSE
