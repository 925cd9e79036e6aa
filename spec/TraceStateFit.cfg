SPECIFICATION TSpec
CONSTANTS S0 <- FS0  Failed <- FFailed  After <- FAfter
POSTCONDITION TraceAccepted
