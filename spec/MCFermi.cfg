SPECIFICATION Spec
CONSTANT Sectors <- QuickSectors
INVARIANTS InSector Conserving Hermitian AlgorithmIsOperator Emit
POSTCONDITION Ergodic
