SPECIFICATION Spec
CONSTANTS G = {"1", "-2", "1/3", "0"}  MaxSteps = 5  Decays = {"0", "1/2", "9/10"}  ModeSet = {"history", "samples"}
CONSTANT Vals <- ValsT
INVARIANTS Closed Between Constant Resume Counts Shift Positive Herm Products MinSR Real Emit
