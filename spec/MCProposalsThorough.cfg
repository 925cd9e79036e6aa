SPECIFICATION Spec
CONSTANT Cfgs <- Thorough
INVARIANTS Conserved Local Reversible Stochastic Fresh DetailedBalance Emit
PROPERTY NeverToZero
