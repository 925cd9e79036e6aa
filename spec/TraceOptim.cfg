SPECIFICATION TSpec
CONSTANTS S0 <- OT0  Failed <- OTFailed  After <- OTAfter
POSTCONDITION TraceAccepted
