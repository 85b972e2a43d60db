CONSTANT Accept <- AcceptEqual
INIT JInit
NEXT JNext
CHECK_DEADLOCK FALSE
POSTCONDITION TraceConsumed
