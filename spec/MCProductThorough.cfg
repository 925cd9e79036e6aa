SPECIFICATION Spec
CONSTANT Spaces <- ThoroughSpaces
INVARIANTS IsGroup RingOrder Compose OrbitClosed Invariant JInvariant UpdateCopies Incremental PlaqLimit SegLimit ArLimits LastConditional Emit
