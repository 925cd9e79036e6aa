SPECIFICATION TSpec
CONSTANTS S0 <- OS0  Failed <- OFailed  After <- OAfter
POSTCONDITION TraceAccepted
