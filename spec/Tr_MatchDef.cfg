CONSTANT Accept <- AcceptMatchDef
INIT JInit
NEXT JNext
CHECK_DEADLOCK FALSE
POSTCONDITION TraceConsumed
