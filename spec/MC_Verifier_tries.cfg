CONSTANTS MaxInteractions = 1
  MaxStates = 3
  Kinds = {"http4"}
  Modes = {"once", "twice"}
  Cut = TRUE
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS InOrder OneResult RequestOnce AllSetUp AllTornDown Tries AgainOnly Truth Verdicts Listed Injected Deterministic
CHECK_DEADLOCK FALSE
