SPECIFICATION TSpec
CONSTANTS S0 <- IS0  Failed <- IFailed  After <- IAfter
POSTCONDITION TraceAccepted
