CONSTANT Accept <- AcceptConvert
INIT JInit
NEXT JNext
CHECK_DEADLOCK FALSE
POSTCONDITION TraceConsumed
