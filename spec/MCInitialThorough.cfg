SPECIFICATION Spec
CONSTANTS
 MaxActs = 3
 Kinds = {"normal", "orth"}
 Roots = {1, 2}
 MaxRot = 4
INVARIANTS Own Reproducible Separate Orthonormal ScaleSquared Emit
CHECK_DEADLOCK FALSE
