CONSTANTS MaxInteractions = 2
  MaxStates = 1
  Kinds = {"http4", "async4"}
  Modes = {"call"}
  Cut = FALSE
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Emitting InOrder OneResult RequestOnce AllSetUp AllTornDown Tries AgainOnly Truth Verdicts Listed Injected Deterministic
CHECK_DEADLOCK FALSE
