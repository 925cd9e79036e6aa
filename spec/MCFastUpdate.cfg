SPECIFICATION Spec
CONSTANTS L = 3 D = 2 MaxK = 3
INVARIANTS CacheFresh TrialFresh Convention
