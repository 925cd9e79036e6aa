SPECIFICATION Spec
CONSTANT Sectors <- ThoroughSectors
INVARIANTS InSector Conserving Hermitian AlgorithmIsOperator Emit
POSTCONDITION Ergodic
