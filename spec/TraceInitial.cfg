SPECIFICATION TSpec
CONSTANTS S0 <- N0  Failed <- NFailed  After <- NAfter
POSTCONDITION TraceAccepted
