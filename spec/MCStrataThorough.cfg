SPECIFICATION Spec
CONSTANTS N = 4  PV = {1, 2, 5}  MaxLen = 3
INVARIANTS InComplement SumsToOne Exact HarmonicConsistent HarmonicBounded
CHECK_DEADLOCK FALSE
