SPECIFICATION TSpec
CONSTANTS S0 <- US0  Failed <- UFailed  After <- UAfter
POSTCONDITION TraceAccepted
