SPECIFICATION Spec
CONSTANT Sizes = {1,2,3,4,5}
INVARIANTS Exclusion Conserved Reversal Distinct Emit
POSTCONDITION Reached
