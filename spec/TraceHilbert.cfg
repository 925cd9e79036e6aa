SPECIFICATION TSpec
CONSTANTS S0 <- HS0  Failed <- HFailed  After <- HAfter
POSTCONDITION TraceAccepted
