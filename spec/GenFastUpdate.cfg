SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANTS InSpace Emit
