SPECIFICATION TSpec
CONSTANTS S0 <- TS0  Failed <- TSFailed  After <- TSAfter
POSTCONDITION TraceAccepted
