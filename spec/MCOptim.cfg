SPECIFICATION Spec
CONSTANTS G = {"1", "-2", "1/3", "0"}  MaxSteps = 4  Decays = {"0", "1/2", "9/10"}  ModeSet = {"history", "samples"}
CONSTANT Vals <- ValsQ
INVARIANTS Closed Between Constant Resume Counts Shift Positive Herm Products MinSR Real Emit
