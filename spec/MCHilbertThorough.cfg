SPECIFICATION Spec
CONSTANT MaxL = 4
INVARIANTS InSpace Counted Uniform Emit
