SPECIFICATION TSpec
CONSTANTS S0 <- AS0  Failed <- AFailed  After <- AAfter
POSTCONDITION TraceAccepted
