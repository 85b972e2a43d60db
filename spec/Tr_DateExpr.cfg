CONSTANT Accept <- AcceptDateExpr
INIT JInit
NEXT JNext
CHECK_DEADLOCK FALSE
POSTCONDITION TraceConsumed
