SPECIFICATION TSpec
CONSTANTS S0 <- DS0  Failed <- DFailed  After <- DAfter
POSTCONDITION TraceAccepted
