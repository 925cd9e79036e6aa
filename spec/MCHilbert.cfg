SPECIFICATION Spec
CONSTANT MaxL = 3
INVARIANTS InSpace Counted Uniform Emit
