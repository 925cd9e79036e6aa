SPECIFICATION Spec
CONSTANT Sectors <- QuickSectors
INVARIANTS InSector Ordered Exchange Pauli Factor Turn Pi PfSquare PfSwap PfSingular PfPair Emit
