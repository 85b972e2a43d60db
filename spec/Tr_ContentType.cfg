CONSTANT Accept <- AcceptContentType
INIT JInit
NEXT JNext
CHECK_DEADLOCK FALSE
POSTCONDITION TraceConsumed
