CONSTANTS MaxInteractions = 2
  MaxStates = 2
  Kinds = {"http4", "async4", "sync4"}
  Modes = {"call", "nourl"}
  Cut = FALSE
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS InOrder OneResult RequestOnce AllSetUp AllTornDown Tries AgainOnly Truth Verdicts Listed Injected Deterministic
CHECK_DEADLOCK FALSE
