SPECIFICATION Spec
CONSTANT Cfgs <- Quick
INVARIANTS Conserved Local Reversible Stochastic Fresh DetailedBalance Emit
PROPERTY NeverToZero
