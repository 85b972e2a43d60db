CONSTANT Accept <- AcceptDatePattern
INIT JInit
NEXT JNext
CHECK_DEADLOCK FALSE
POSTCONDITION TraceConsumed
