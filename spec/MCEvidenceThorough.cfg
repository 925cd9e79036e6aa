SPECIFICATION Spec
CONSTANTS Alphas = {"1/2", "3"}  Kinds = {"real", "circular", "expand"}
CONSTANT Vals <- ValsT
INVARIANTS Minimum LogDet Quad Density Optimum
