SPECIFICATION Spec
CONSTANT Sectors <- ThoroughSectors
INVARIANTS InSector Ordered Exchange Pauli Factor Turn Pi PfSquare PfSwap PfSingular PfPair Emit
