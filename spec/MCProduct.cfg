SPECIFICATION Spec
CONSTANT Spaces <- QuickSpaces
INVARIANTS IsGroup RingOrder Compose OrbitClosed Invariant JInvariant UpdateCopies Incremental PlaqLimit SegLimit ArLimits LastConditional Emit
