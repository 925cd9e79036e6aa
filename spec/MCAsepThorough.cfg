SPECIFICATION Spec
CONSTANT Sizes = {1,2,3,4,5,6,7,8}
INVARIANTS Exclusion Conserved Reversal Distinct Emit
POSTCONDITION Reached
