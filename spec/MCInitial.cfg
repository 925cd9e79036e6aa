SPECIFICATION Spec
CONSTANTS
 MaxActs = 2
 Kinds = {"normal", "orth"}
 Roots = {1, 2}
 MaxRot = 3
INVARIANTS Own Reproducible Separate Orthonormal ScaleSquared Emit
CHECK_DEADLOCK FALSE
