SPECIFICATION Spec
CONSTANTS L = 3 D = 3 MaxK = 4
INVARIANTS CacheFresh TrialFresh Convention
