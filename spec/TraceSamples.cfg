SPECIFICATION TSpec
CONSTANTS S0 <- UT0  Failed <- UTFailed  After <- UTAfter
POSTCONDITION TraceAccepted
