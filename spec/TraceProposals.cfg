SPECIFICATION TSpec
CONSTANTS S0 <- PS0  Failed <- PFailed  After <- PAfter
POSTCONDITION TraceAccepted
